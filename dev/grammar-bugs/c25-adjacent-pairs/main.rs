use dockerfile_parser::*;
fn main() {
  assert!(Dockerfile::parse("LABEL a=\"b\"c=d\n").is_err());
}

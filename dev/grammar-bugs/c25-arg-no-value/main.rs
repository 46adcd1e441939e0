use dockerfile_parser::*;
fn main() {
  assert!(Dockerfile::parse("ARG a=\n").is_err());
}

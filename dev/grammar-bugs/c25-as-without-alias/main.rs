use dockerfile_parser::*;
fn main() {
  assert!(Dockerfile::parse("FROM a AS\n").is_err());
}

use dockerfile_parser::*;
fn main() {
  assert!(Dockerfile::parse("FROM a\t\nCMD b\n").is_ok());
}

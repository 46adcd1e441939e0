use dockerfile_parser::*;
fn main() {
  if let Ok(d) = Dockerfile::parse("ARG 1a=b\n") {
    assert!(d.instructions[0].as_arg().is_none());
  }
}

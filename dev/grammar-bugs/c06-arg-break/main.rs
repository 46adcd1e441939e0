use dockerfile_parser::*;
fn main() {
  let d = Dockerfile::parse("ARG \\\n  a=b\n").unwrap();
  assert!(d.instructions[0].as_arg().is_some());
}

use dockerfile_parser::*;
fn main() {
  let d = Dockerfile::parse("ARGS a\n").unwrap();
  assert!(d.instructions[0].as_misc().is_some());
}

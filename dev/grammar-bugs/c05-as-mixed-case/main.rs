use dockerfile_parser::*;
fn main() {
  let d = Dockerfile::parse("FROM a As b\n").unwrap();
  assert_eq!(d.instructions[0].as_from().unwrap().alias.as_ref().unwrap().content, "b");
}

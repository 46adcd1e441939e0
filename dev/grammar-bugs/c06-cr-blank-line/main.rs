use dockerfile_parser::*;
fn main() {
  let d = Dockerfile::parse("CMD [\"a\", \\\n\n# c\n  \"b\"]\n").unwrap();
  assert!(d.instructions[0].as_cmd().unwrap().as_exec().is_some());
}

use dockerfile_parser::*;
fn main() {
  let d = Dockerfile::parse("ENV a=b=c d=e\n").unwrap();
  assert_eq!(d.instructions[0].as_env().unwrap().vars.len(), 2);
}

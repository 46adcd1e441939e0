use dockerfile_parser::*;
fn main() {
  let d = Dockerfile::parse("COPY a --b=c d\n").unwrap();
  assert_eq!(d.instructions[0].as_copy().unwrap().sources.len(), 2);
}

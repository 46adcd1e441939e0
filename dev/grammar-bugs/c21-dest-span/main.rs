use dockerfile_parser::*;
fn main() {
  let d = Dockerfile::parse("COPY a b\r\n").unwrap();
  let c = d.instructions[0].as_copy().unwrap();
  let mut s = d.splicer();
  s.splice(&c.destination.span, "c");
  assert_eq!(s.content, "COPY a c\r\n");
}

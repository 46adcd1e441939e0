use dockerfile_parser::*;
fn main() {
  let d = Dockerfile::parse("COPY --x=a=b c d\n").unwrap();
  assert_eq!(d.instructions[0].as_copy().unwrap().flags[0].value.content, "a=b");
}

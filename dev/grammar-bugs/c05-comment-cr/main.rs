use dockerfile_parser::*;
fn main() {
  let d = Dockerfile::parse("RUN a \\\r\n# c\r\n  b\r\n").unwrap();
  let c: Vec<_> = d.instructions[0].as_run().unwrap().as_shell().unwrap().iter_components().filter_map(|c| match c { BreakableStringComponent::Comment(c) => Some(c.content.clone()), _ => None }).collect();
  assert_eq!(c, ["# c"]);
}

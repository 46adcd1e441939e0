use dockerfile_parser::*;
fn main() {
  let d = Dockerfile::parse("ENV a=1 \\\n#1\n#2\n#3\n#4\n#5\n b=2\n").unwrap();
  assert_eq!(d.instructions[0].as_env().unwrap().vars.len(), 2);
}

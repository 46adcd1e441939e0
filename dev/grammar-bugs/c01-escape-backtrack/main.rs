use dockerfile_parser::*;
fn main() {
  let s = format!("RUN [\"{}\"]\n", "\\n".repeat(60));
  let t = std::time::Instant::now();
  let (tx, rx) = std::sync::mpsc::channel();
  std::thread::spawn(move || { let _ = tx.send(Dockerfile::parse(&s).is_ok()); });
  assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(true));
  assert!(t.elapsed().as_secs() < 20);
}

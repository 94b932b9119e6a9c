fn main() { let mut c = harness::Ctx::new("P04"); harness::records::sizes(&mut c); c.done() }

fn main() { let mut c = harness::Ctx::new("P10"); harness::types::order(&mut c); c.done() }

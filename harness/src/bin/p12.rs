fn main() { let mut c = harness::Ctx::new("P12"); harness::types::values(&mut c); c.done() }

fn main() { let mut c = harness::Ctx::new("P11"); harness::types::names(&mut c); c.done() }

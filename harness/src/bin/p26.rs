fn main() { let mut c = harness::Ctx::new("P26"); harness::storage::pool(&mut c); c.done() }

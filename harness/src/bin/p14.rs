fn main() { let mut c = harness::Ctx::new("P14"); harness::storage::lists(&mut c); c.done() }

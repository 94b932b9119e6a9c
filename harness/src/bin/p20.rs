fn main() { let mut c = harness::Ctx::new("P20"); harness::sql::catalog(&mut c); c.done() }

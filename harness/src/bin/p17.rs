fn main() { let mut c = harness::Ctx::new("P17"); harness::sql::names(&mut c); c.done() }

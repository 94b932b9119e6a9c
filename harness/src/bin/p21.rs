fn main() { let mut c = harness::Ctx::new("P21"); harness::sql::statements(&mut c); c.done() }

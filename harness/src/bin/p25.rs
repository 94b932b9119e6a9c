fn main() { let mut c = harness::Ctx::new("P25"); harness::sql::selects(&mut c); c.done() }

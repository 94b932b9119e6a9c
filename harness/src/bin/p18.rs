fn main() { let mut c = harness::Ctx::new("P18"); harness::sql::types(&mut c); c.done() }

fn main() { let mut c = harness::Ctx::new("P19"); harness::sql::exprs(&mut c); c.done() }

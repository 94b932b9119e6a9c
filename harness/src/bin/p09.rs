fn main() { let mut c = harness::Ctx::new("P09"); harness::json::shapes(&mut c); c.done() }

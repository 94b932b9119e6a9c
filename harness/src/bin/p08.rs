fn main() { let mut c = harness::Ctx::new("P08"); harness::json::documents(&mut c); c.done() }

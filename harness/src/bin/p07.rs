fn main() { let mut c = harness::Ctx::new("P07"); harness::json::tokens(&mut c); c.done() }

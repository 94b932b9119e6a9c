fn main() { let mut c = harness::Ctx::new("P06"); harness::json::strings(&mut c); c.done() }

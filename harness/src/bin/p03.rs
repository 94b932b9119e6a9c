fn main() { let mut c = harness::Ctx::new("P03"); harness::records::roundtrip(&mut c); c.done() }

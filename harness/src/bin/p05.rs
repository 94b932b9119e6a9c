fn main() { let mut c = harness::Ctx::new("P05"); harness::records::layouts(&mut c); c.done() }

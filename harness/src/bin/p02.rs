fn main() { let mut c = harness::Ctx::new("P02"); harness::nsm::drive(&mut c, harness::nsm::space); c.done() }

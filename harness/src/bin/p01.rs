fn main() { let mut c = harness::Ctx::new("P01"); harness::nsm::drive(&mut c, harness::nsm::history); c.done() }

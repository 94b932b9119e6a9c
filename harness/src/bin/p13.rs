fn main() { let mut c = harness::Ctx::new("P13"); harness::storage::locations(&mut c); c.done() }

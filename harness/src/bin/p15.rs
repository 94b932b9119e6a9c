fn main() { let mut c = harness::Ctx::new("P15"); harness::storage::volumes(&mut c); c.done() }

fn main() { let mut c = harness::Ctx::new("P16"); harness::storage::arith(&mut c); c.done() }

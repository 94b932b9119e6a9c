// a power of two, and rounding up, in plain arithmetic
pub open spec fn p2(a: int) -> bool { exists|k: nat| a == #[trigger] pow2(k) }
pub open spec fn rounded_up(v: int, a: int, r: int) -> bool { v <= r < v + a && r % a == 0 }
pub open spec fn round_up(v: int, a: int) -> int { ((v + a - 1) / a) * a }
pub open spec fn bits_of(v: int, n: int) -> bool { 0 <= n && v < pow2(n as nat) && (n > 0 ==> pow2((n - 1) as nat) <= v) }

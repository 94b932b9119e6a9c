//! Kani harnesses over the real source text of /repo/src/core/util.rs and /repo/src/storage/utils.rs.
#![allow(dead_code, unused)]
pub mod core {
    #[path = "/repo/src/core/util.rs"]
    pub mod util;
}
#[path = "/repo/src/storage/utils.rs"]
pub mod utils;

#[cfg(kani)]
mod proofs {
    use super::core::util;
    use std::alloc::{alloc, Layout};
    // a page or record buffer of any size, content and address: 2^46 bytes is more than the address
    // space of a process can hold (and what CBMC's pointers address)
    fn any_bytes<'a>() -> &'a mut [u8] {
        let n: usize = kani::any(); kani::assume(n > 0 && n <= 1usize << 46);
        let p = unsafe { alloc(Layout::from_size_align_unchecked(n, 1)) };
        kani::assume(!p.is_null());
        unsafe { std::slice::from_raw_parts_mut(p, n) }
    }
    // a window [lo, hi) of n bytes and an offset in it with room for sz bytes
    fn any_window(n: usize, sz: usize) -> (usize, usize, usize) {
        let lo: usize = kani::any(); let hi: usize = kani::any(); kani::assume(lo <= hi && hi <= n);
        let off: usize = kani::any(); kani::assume(off <= hi - lo && hi - lo - off >= sz);
        (lo, hi, off)
    }
    // set_value / get_value: the contract the Verus units assume, for every buffer size, offset, address, content and value.
    macro_rules! typed_as { ($set:ident, $get:ident, $t:ty, $i:ty, $to:expr, $valid:expr) => {
        #[kani::proof]
        fn $set() {
            let whole = any_bytes(); let n = whole.len(); let sz = std::mem::size_of::<$t>();
            let (lo, hi, off) = any_window(n, sz);
            let k: usize = kani::any(); kani::assume(k < n); let before = whole[k];
            let v: $t = kani::any();
            util::set_value::<$t>(&mut whole[lo..hi], off, v);
            let to: fn($t) -> $i = $to; let bytes = to(v).to_le_bytes(); assert!(sz == bytes.len());
            if k >= lo + off && k - lo - off < sz { assert!(whole[k] == bytes[k - lo - off], "stored byte"); } else { assert!(whole[k] == before, "frame"); }
            kani::cover!(n > 1usize << 40 && off > 1usize << 33, "reached");
        }
        #[kani::proof]
        fn $get() {
            let whole = any_bytes(); let n = whole.len(); let sz = std::mem::size_of::<$t>();
            let (lo, hi, off) = any_window(n, sz);
            let mut raw = [0u8; std::mem::size_of::<$t>()];
            let b = lo + off;
            raw[0] = whole[b]; if sz > 1 { raw[1 % sz] = whole[b + 1 % sz]; } if sz > 2 { raw[2 % sz] = whole[b + 2 % sz]; raw[3 % sz] = whole[b + 3 % sz]; }
            if sz > 4 { raw[4 % sz] = whole[b + 4 % sz]; raw[5 % sz] = whole[b + 5 % sz]; raw[6 % sz] = whole[b + 6 % sz]; raw[7 % sz] = whole[b + 7 % sz]; }
            if sz > 8 { raw[8 % sz] = whole[b + 8 % sz]; raw[9 % sz] = whole[b + 9 % sz]; raw[10 % sz] = whole[b + 10 % sz]; raw[11 % sz] = whole[b + 11 % sz];
                raw[12 % sz] = whole[b + 12 % sz]; raw[13 % sz] = whole[b + 13 % sz]; raw[14 % sz] = whole[b + 14 % sz]; raw[15 % sz] = whole[b + 15 % sz]; }
            let x = <$i>::from_le_bytes(raw); let valid: fn($i) -> bool = $valid; kani::assume(valid(x));
            let r = util::get_value::<$t>(&whole[lo..hi], off);
            let to: fn($t) -> $i = $to; assert!(to(r) == x, "loaded value");
            kani::cover!(n > 1usize << 40 && off > 1usize << 33, "reached");
        }
    } }
    macro_rules! typed { ($set:ident, $get:ident, $t:ty) => { typed_as!($set, $get, $t, $t, |v| v, |_| true); } }
    typed!(set_u128, get_u128, u128);
    typed!(set_i128, get_i128, i128);
    typed_as!(set_bool, get_bool, bool, u8, |v| v as u8, |x| x <= 1);
    typed_as!(set_char, get_char, char, u32, |v| v as u32, |x| char::from_u32(x).is_some());
    typed_as!(set_f32, get_f32, f32, u32, |v| v.to_bits(), |_| true);
    typed_as!(set_f64, get_f64, f64, u64, |v| v.to_bits(), |_| true);
    typed!(set_u8, get_u8, u8);
    typed!(set_u16, get_u16, u16);
    typed!(set_u32, get_u32, u32);
    typed!(set_u64, get_u64, u64);
    typed!(set_i8, get_i8, i8);
    typed!(set_i16, get_i16, i16);
    typed!(set_i32, get_i32, i32);
    typed!(set_i64, get_i64, i64);

    // the standard-library contracts the Verus unit "arith" assumes, and the functions themselves, for every input
    #[kani::proof]
    fn bits_zeros() {
        let x: usize = kani::any();
        let l = x.leading_zeros(); assert!(l <= 64 && (l == 64) == (x == 0));
        if x != 0 { assert!(x >> (63 - l) == 1); assert!(x >= 1usize << (63 - l)); if l > 0 { assert!(x < 1usize << (64 - l)); } }
        let t = x.trailing_zeros(); assert!(t <= 64);
        if x != 0 { assert!(t < 64 && (x >> t) & 1 == 1 && (x & ((1usize << t) - 1)) == 0); if x & (x - 1) == 0 { assert!(x == 1usize << t); } }
        assert!(0u64.count_zeros() == 64 && 0u8.count_zeros() == 8);
        kani::cover!(true, "reached");
    }
    #[kani::proof]
    fn bits_required() {
        let x: usize = kani::any(); let n = util::required_bits(x);
        assert!(n <= 64); if n < 64 { assert!(x >> n == 0); } if n > 0 { assert!(x >> (n - 1) != 0); }
        kani::cover!(true, "reached");
    }
    #[kani::proof]
    fn bits_log2() {
        let k: u32 = kani::any(); kani::assume(k < 64);
        assert!(util::log2(1usize << k) == k);
        kani::cover!(true, "reached");
    }
}

//! Binary records: P03, P04, P05
use crate::types::{gen_prim, gen_string, get_prim, path, same_prim, store, typ, Stored, PRIMS};
use crate::{check, hash_of, quiet, Ctx, Rng};
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::marshaller::{verif, Layout, Marshaller, MarshallerDataSource};
use cathlamet::core::types::{Case, Field, Kind, Path, Primitive, Type};
use cathlamet::core::value::PrimitiveValue;
use std::sync::Arc;

pub type Elements = Vec<(Vec<usize>, Stored)>;
pub fn gen_record(r: &mut Rng, depth: usize, width: usize) -> Type {
    let n = 1 + r.below(width); let lab = |k: usize| format!("l{}", k);
    match if depth == 0 { r.below(4) } else { r.below(11) } {
        0 => if r.chance(1, 3) { typ(Kind::Unit) } else { typ(Kind::Primitive(*r.pick(&PRIMS))) }, 1 => typ(Kind::String), 2 => typ(Kind::Primitive(*r.pick(&PRIMS))),
        3 => { let n = match r.below(8) { 0 => 1, 1 => 2, 2 => 128 + r.below(4), 3 => 255 + r.below(3), 4 => 1 << r.below(9), _ => 1 + r.below(40) }; let last = gen_record(r, 0, 1); typ(Kind::Enum((0..n).map(|k| Case { label: lab(k), typ: Box::new(if k + 1 == n { last.clone() } else { typ(Kind::Unit) }) }).collect())) }
        4 | 5 => typ(Kind::Tuple((0..n).map(|_| Box::new(gen_record(r, depth - 1, width))).collect())),
        6 | 7 => typ(Kind::Struct((0..n).map(|k| Field { label: lab(k), typ: Box::new(gen_record(r, depth - 1, width)) }).collect())),
        _ => typ(Kind::Enum((0..n).map(|k| Case { label: lab(k), typ: Box::new(gen_record(r, depth - 1, width)) }).collect())),
    }
}
pub fn gen_value(r: &mut Rng, t: &Type, p: &mut Vec<usize>, out: &mut Elements) {
    match &t.kind {
        Kind::Unit => {} Kind::Primitive(q) => out.push((p.clone(), Stored::P(gen_prim(r, *q)))), Kind::String => out.push((p.clone(), Stored::S(gen_string(r)))),
        Kind::Tuple(e) => for (i, t) in e.iter().enumerate() { p.push(i); gen_value(r, t, p, out); p.pop(); },
        Kind::Struct(f) => for (i, f) in f.iter().enumerate() { p.push(i); gen_value(r, &f.typ, p, out); p.pop(); },
        Kind::Enum(c) => { let i = match r.below(3) { 0 => c.len() - 1, _ => r.below(c.len()) }; out.push((p.clone(), Stored::T(i))); p.push(i); gen_value(r, &c[i].typ, p, out); p.pop(); }
    }
}
pub fn source(v: &Elements) -> IntermediateDataSource { let mut d = IntermediateDataSource::new(); for (p, x) in v { store(&mut d, &path(p), x) } d }
fn get_prim_m(m: &Marshaller, d: &[u8], p: &Path, t: Primitive) -> PrimitiveValue {
    macro_rules! g { ($($v:ident)*) => { match t { $(Primitive::$v => PrimitiveValue::$v(m.get_primitive(d, p)),)* } } }
    g!(Bool Char U8 U16 U32 U64 U128 I8 I16 I32 I64 I128 F32 F64)
}
/// the single source trait, for the reader over an encoded record
fn get_prim_s<D: DataSource>(d: &D, p: &Path, t: Primitive) -> PrimitiveValue {
    match t { Primitive::Bool => PrimitiveValue::Bool(d.get_bool(p)), Primitive::Char => PrimitiveValue::Char(d.get_char(p)), Primitive::U8 => PrimitiveValue::U8(d.get_u8(p)), Primitive::U16 => PrimitiveValue::U16(d.get_u16(p)), Primitive::U32 => PrimitiveValue::U32(d.get_u32(p)), Primitive::U64 => PrimitiveValue::U64(d.get_u64(p)), Primitive::U128 => PrimitiveValue::U128(d.get_u128(p)), Primitive::I8 => PrimitiveValue::I8(d.get_i8(p)), Primitive::I16 => PrimitiveValue::I16(d.get_i16(p)), Primitive::I32 => PrimitiveValue::I32(d.get_i32(p)), Primitive::I64 => PrimitiveValue::I64(d.get_i64(p)), Primitive::I128 => PrimitiveValue::I128(d.get_i128(p)), Primitive::F32 => PrimitiveValue::F32(d.get_f32(p)), Primitive::F64 => PrimitiveValue::F64(d.get_f64(p)) }
}
fn reads(m: &Marshaller, d: &[u8], v: &Elements) -> Result<(), String> {
    let s = MarshallerDataSource::new(m, d);
    for (p, x) in v {
        let q = path(p);
        match x {
            Stored::P(w) => { let g = get_prim_m(m, d, &q, w.primitive()); check!(same_prim(&g, w), "{:?} reads {:?} instead of {:?}", p, g, w); let g = get_prim_s(&s, &q, w.primitive()); check!(same_prim(&g, w), "{:?} reads {:?} instead of {:?} through the data source", p, g, w); }
            Stored::S(w) => { let g = m.get_bytes(d, &q).to_vec(); check!(g == w.as_bytes(), "{:?} reads bytes {:?} instead of {:?}", p, g, w); check!(m.get_length(d, &q) == w.len(), "{:?} has length {} instead of {}", p, m.get_length(d, &q), w.len()); check!(s.get_bytes(&q) == w.as_bytes() && s.get_length(&q) == w.len(), "{:?} through the data source", p); }
            Stored::T(w) => { let g = m.get_case_tag(d, &q); check!(g == *w, "{:?} reads case {} instead of {}", p, g, w); check!(s.get_case_tag(&q) == *w, "{:?} through the data source", p); }
        }
    }
    Ok(())
}
fn show(t: &Type, v: &Elements) -> String { let mut s = format!("{:?}", t); if s.len() > 1500 { let mut n = 1500; while !s.is_char_boundary(n) { n -= 1 } s.truncate(n); s.push_str("..."); } { let mut w = format!("{:?}", v); if w.len() > 3000 { let mut n = 3000; while !w.is_char_boundary(n) { n -= 1 } w.truncate(n); w.push_str("..."); } format!("value {} of type {}", w, s) } }
pub fn cases(n: usize) -> Type { typ(Kind::Enum((0..n).map(|k| Case { label: String::new(), typ: Box::new(typ(if k + 1 == n && n > 3 { Kind::String } else { Kind::Unit })) }).collect())) }
/// shapes that are rare among random types
fn special(r: &mut Rng) -> (Type, Elements) {
    let b = |t: Type| Box::new(t); let mut e: Vec<Box<Type>> = vec![]; let big = r.chance(1, 12); let n = 1 + r.below(4);
    for _ in 0..n { let k = match r.below(if big { 7 } else { 6 }) { 0 => 2 + r.below(7), 1 => 1 << r.below(10), 2 => (1 << r.below(10)) + 1, 3 => 255 + r.below(4), 4 => 511 + r.below(4), 5 => 9 + r.below(120), _ => if e.len() < 2 { 65535 + r.below(4) } else { 2 } }; e.push(b(cases(k))); }
    for _ in 0..r.below(4) { e.push(b(typ(Kind::Primitive(*r.pick(&PRIMS))))) } for _ in 0..r.below(3) { e.push(b(typ(Kind::String))) }
    for i in 0..e.len() { let j = r.below(e.len()); e.swap(i, j) }
    let t = typ(Kind::Tuple(e)); let mut v = vec![]; gen_value(r, &t, &mut vec![], &mut v);
    if r.chance(1, 10) { for x in v.iter_mut() { if let Stored::S(s) = &mut x.1 { let n = *r.pick(&[255usize, 256, 4096, 32768, 65535, 65536, 65537, 70001]); *s = "y".repeat(n); } } }
    (t, v)
}
fn pick(c: &mut Ctx) -> (Type, Elements) {
    if c.rng.chance(1, 40) { return special(&mut c.rng) }
    let d = c.rng.below(4); let w = 1 + c.rng.below(if d > 2 { 3 } else { 5 });
    let t = gen_record(&mut c.rng, d, w); let mut v = vec![]; gen_value(&mut c.rng, &t, &mut vec![], &mut v); (t, v)
}
pub fn roundtrip(c: &mut Ctx) {
    while c.time_left() {
        let (t, mut v) = pick(c); let m = Marshaller::new(Arc::new(Layout::new(&t)));
        for round in 0..3 {
            if round > 0 { v.clear(); gen_value(&mut c.rng, &t, &mut vec![], &mut v); }
            let (shift, fill, more) = (c.rng.below(17), c.rng.next() as u8, c.rng.below(20));
            c.case(hash_of(&format!("{:?}{:?}", t, v)), v.len() > 1, || format!("{} at address {} mod 16, buffer filled with {}", show(&t, &v), shift, fill), || {
                let s = source(&v); let n = m.encoding_size(&s); let mut buf = vec![fill; n + 64]; let base = (16 - buf.as_ptr() as usize % 16) % 16 + shift;
                m.encode(&s, &mut buf[base..base + n]); reads(&m, &buf[base..base + n], &v)?; reads(&m, &buf[base..base + n + more.min(16)], &v)?;
                // the same record elsewhere
                let copy = buf[base..base + n].to_vec(); let mut other = vec![!fill; n + 40]; let k = (shift * 7 + 3) % 17; other[k..k + n].copy_from_slice(&copy); reads(&m, &other[k..k + n], &v)?;
                // encoded over a record of all ones or zeros
                let mut ones = vec![!fill; n]; m.encode(&s, &mut ones); reads(&m, &ones, &v)?; Ok(()) });
        }
    }
}
pub fn sizes(c: &mut Ctx) {
    while c.time_left() {
        let (t, v) = pick(c); let layout = Arc::new(Layout::new(&t)); let m = Marshaller::new(layout.clone()); let fill = c.rng.next() as u8; let cut = c.rng.below(64);
        c.case(hash_of(&format!("{:?}{:?}", t, v)), v.len() > 1, || show(&t, &v), || {
            let s = source(&v); let n = m.encoding_size(&s); let mut buf = vec![fill; n + 48];
            let got = m.encode(&s, &mut buf[16..]); check!(got == n, "announced {} bytes, used {}", n, got); check!(buf[..16].iter().chain(&buf[16 + n..]).all(|b| *b == fill), "bytes outside the record change");
            check!(verif::encoding_size(&layout, &buf[16..]) == n, "announced {} bytes, recomputed {}", n, verif::encoding_size(&layout, &buf[16..]));
            let mut exact = vec![fill; n]; check!(quiet(|| m.encode(&s, &mut exact)) == Ok(n), "an exact buffer does not do"); check!(verif::encoding_size(&layout, &exact) == n, "recomputed from the exact buffer: {}", verif::encoding_size(&layout, &exact));
            // bytes the encoder needs: those it changes for some filling
            let mut b2 = vec![!fill; n + 48]; m.encode(&s, &mut b2[16..]);
            let last = (0..n).rev().find(|i| !(buf[16 + i] == fill && b2[16 + i] == !fill)).map_or(0, |i| i + 1);
            for k in [0, last / 2, last.saturating_sub(1), cut % (last + 1)].iter() {
                if *k < last { let mut short = vec![fill; n + 48]; let r = quiet(|| m.encode(&s, &mut short[16..16 + k])); check!(r.is_err(), "a buffer of {} bytes is enough for a record whose byte {} is set", k, last - 1); check!(short[..16].iter().chain(&short[16 + k..]).all(|b| *b == fill), "writes outside a buffer of {} bytes", k); }
            }
            Ok(()) });
    }
}
// the elements kept in the fixed part of a type, with the bits their values need
fn wanted(t: &Type, p: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, usize, bool)>, nested: &mut Vec<(Vec<usize>, Type)>) {
    match &t.kind {
        Kind::Unit => {}
        Kind::Primitive(q) => { let n = match q { Primitive::Bool | Primitive::U8 | Primitive::I8 => 8, Primitive::U16 | Primitive::I16 => 16, Primitive::Char | Primitive::U32 | Primitive::I32 | Primitive::F32 => 32, Primitive::U64 | Primitive::I64 | Primitive::F64 => 64, _ => 128 }; out.push((p.clone(), n, false)) }
        Kind::String => out.push((p.clone(), 32, false)),
        Kind::Tuple(e) => for (i, t) in e.iter().enumerate() { p.push(i); wanted(t, p, out, nested); p.pop(); },
        Kind::Struct(f) => for (i, f) in f.iter().enumerate() { p.push(i); wanted(&f.typ, p, out, nested); p.pop(); },
        Kind::Enum(c) => { let mut n = 0; while (1usize << n) < c.len() { n += 1 } out.push((p.clone(), n, true)); for (i, c) in c.iter().enumerate() { p.push(i); nested.push((p.clone(), (*c.typ).clone())); p.pop(); } }
    }
}
fn disjoint(l: &Layout, t: &Type, at: &Vec<usize>) -> Result<(), String> {
    let (mut w, mut nested) = (vec![], vec![]); wanted(t, &mut at.clone(), &mut w, &mut nested); w.sort();
    let mut s = verif::spots(l); s.sort();
    check!(s.iter().map(|x| &x.0).eq(w.iter().map(|x| &x.0)), "elements {:?} are kept for {:?}", s, w);
    let fixed = verif::fixed_size(l) * 8; let mut used: Vec<(usize, usize, &Vec<usize>)> = vec![];
    for ((p, start, size, bit, bits), (_, need, bf)) in s.iter().zip(&w) {
        check!(bits >= need && (*bf || bits == need), "{:?} has {} bits, needs {}", p, bits, need); check!(bit + bits <= *size, "{:?} leaves its container: bits {}+{} of {}", p, bit, bits, size);
        check!(start % size == 0, "{:?} of {} bits is at bit {}", p, size, start); check!(start + size <= fixed, "{:?} leaves the fixed part", p);
        if *bits > 0 { used.push((start + bit, start + bit + bits, p)); }
    }
    used.sort();
    for x in used.windows(2) { check!(x[0].1 <= x[1].0, "{:?} and {:?} share bits {:?}", x[0].2, x[1].2, (x[1].0, x[0].1)); }
    // sub-layouts, in any order
    let mut subs = verif::cases(l); check!(subs.len() == nested.len(), "{} case layouts for {} cases", subs.len(), nested.len());
    for (p, t) in &nested { let k = subs.iter().position(|l| disjoint(l, t, p).is_ok()); match k { Some(k) => { subs.remove(k); } None => { let e = subs.iter().map(|l| disjoint(l, t, p).err().unwrap()).next().unwrap_or_default(); check!(false, "case {:?}: {}", p, e) } } }
    Ok(())
}
pub fn layouts(c: &mut Ctx) {
    while c.time_left() {
        let (t, v) = pick(c);
        c.case(hash_of(&format!("{:?}", t)), v.len() > 1, || show(&t, &vec![]), || disjoint(&Layout::new(&t), &t, &vec![]));
        // changing one element leaves all others as they were
        let mut v2 = v.clone(); let idx: Vec<usize> = (0..v.len()).filter(|i| !matches!(v[*i].1, Stored::T(_))).collect();
        if !idx.is_empty() {
            let k = *c.rng.pick(&idx); v2[k].1 = match &v2[k].1 { Stored::P(x) => Stored::P(gen_prim(&mut c.rng, x.primitive())), _ => Stored::S(gen_string(&mut c.rng)) };
            c.case(hash_of(&format!("{:?}{:?}", t, v2)), v.len() > 1, || show(&t, &v2), || { let m = Marshaller::new(Arc::new(Layout::new(&t))); for x in [&v, &v2] { let s = source(x); let mut b = vec![0; m.encoding_size(&s)]; m.encode(&s, &mut b); reads(&m, &b, x)?; } Ok(()) });
        }
    }
}

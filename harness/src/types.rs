//! Types, values and paths: generators, and P10, P11, P12
use crate::{check, hash_of, quiet, Ctx, Rng};
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::types::{Case, Field, Kind, Path, Primitive, Type};
use cathlamet::core::value::PrimitiveValue;
use std::cmp::Ordering;
use std::collections::HashMap;

pub const PRIMS: [Primitive; 14] = [Primitive::Bool, Primitive::Char, Primitive::U8, Primitive::U16, Primitive::U32, Primitive::U64, Primitive::U128, Primitive::I8, Primitive::I16, Primitive::I32, Primitive::I64, Primitive::I128, Primitive::F32, Primitive::F64];
pub fn path(p: &[usize]) -> Path { let mut r = Path::create_empty(); for x in p { r = r.with_component(*x) } r }
pub fn typ(kind: Kind) -> Type { Type { kind } }
pub fn child(t: &Type, i: usize) -> Option<&Type> { match &t.kind { Kind::Enum(c) => c.get(i).map(|c| &*c.typ), Kind::Struct(f) => f.get(i).map(|f| &*f.typ), Kind::Tuple(e) => e.get(i).map(|e| &**e), _ => None } }
/// labels are distinct when `distinct`
pub fn gen_type(r: &mut Rng, depth: usize, width: usize, distinct: bool) -> Type {
    let labels = ["a", "b", "ab", "", "A", "é", "0", "x y", "\"", "first", "1", "+1", "\u{1F600}", "b\\", "\n"];
    let n = r.below(width + 1);
    let label = |r: &mut Rng, k: usize| { let l = labels[r.below(labels.len())].to_string(); if distinct { format!("{}{}", l, k) } else { l } };
    match if depth == 0 { r.below(3) } else { r.below(9) } {
        0 => typ(Kind::Unit), 1 => typ(Kind::String),
        2 | 3 => typ(Kind::Primitive(*r.pick(&PRIMS))),
        4 | 5 => typ(Kind::Tuple((0..n).map(|_| Box::new(gen_type(r, depth - 1, width, distinct))).collect())),
        6 | 7 => typ(Kind::Struct((0..n).map(|k| Field { label: label(r, k), typ: Box::new(gen_type(r, depth - 1, width, distinct)) }).collect())),
        _ => typ(Kind::Enum((0..n + 1).map(|k| Case { label: label(r, k), typ: Box::new(gen_type(r, depth - 1, width, distinct)) }).collect())),
    }
}

// ---------------------------------------------------------------- P10
pub fn order(c: &mut Ctx) {
    let one = |c: &mut Ctx, a: &[usize], b: &[usize]| {
        c.case(hash_of(&(a, b)), !a.is_empty() && !b.is_empty(), || format!("paths {:?} and {:?}", a, b), || {
            let (p, q) = (path(a), path(b));
            check!(p.path() == a && q.path() == b, "positions read back as {:?}, {:?}", p.path(), q.path());
            check!(p.cmp(&q) == a.cmp(b), "compare as {:?}", p.cmp(&q)); check!(p.partial_cmp(&q) == Some(a.cmp(b)), "partially compare as {:?}", p.partial_cmp(&q));
            check!((p < q) == (a < b) && (p <= q) == (a <= b) && (p > q) == (a > b) && (p >= q) == (a >= b), "operators");
            check!(q.cmp(&p) == a.cmp(b).reverse() || (a == b && q.cmp(&p) == Ordering::Equal), "not antisymmetric");
            check!((p == q) == (a == b) && (p != q) == (a != b), "equality");
            let pre = b.len() >= a.len() && &b[..a.len()] == a;
            check!(p.is_prefix_of(&q) == pre, "is_prefix_of gives {}", p.is_prefix_of(&q)); check!(p.is_proper_prefix_of(&q) == (pre && a.len() != b.len()), "is_proper_prefix_of gives {}", p.is_proper_prefix_of(&q));
            let e = p.with_component(7); check!(e.path()[..a.len()] == *a && e.path()[a.len()] == 7 && e.path().len() == a.len() + 1 && p.path() == a, "appending gives {:?}", e.path());
            check!(p.clone() == p && p.clone().path() == a, "clone"); Ok(()) });
    };
    let mut all: Vec<Vec<usize>> = vec![vec![]]; let mut k = 0;
    while k < all.len() { if all[k].len() < 4 { for x in [0usize, 1, 2] { let mut n = all[k].clone(); n.push(x); all.push(n); } } k += 1; }
    for a in &all { for b in &all { one(c, a, b); } }
    while c.time_left() {
        let n = c.rng.below(12); let a: Vec<usize> = (0..n).map(|_| if c.rng.chance(1, 2) { c.rng.below(3) } else { c.rng.edgy() as usize }).collect();
        let mut b = a.clone(); for _ in 0..c.rng.below(3) { match c.rng.below(4) { 0 => b.push(c.rng.edgy() as usize), 1 => { b.pop(); } _ => if !b.is_empty() { let i = c.rng.below(b.len()); b[i] = b[i].wrapping_add(c.rng.edgy() as usize) } } }
        one(c, &a, &b);
    }
}

// ---------------------------------------------------------------- P11
fn model(t: &Type, name: &str) -> Option<Vec<usize>> {
    let mut out = vec![]; let mut cur = t; let mut rest = Some(name);
    while let Some(s) = rest {
        let (part, r) = match s.find('.') { Some(i) => (&s[..i], Some(&s[i + 1..])), None => (s, None) }; rest = r;
        let i = match &cur.kind { Kind::Enum(c) => c.iter().position(|c| c.label == part)?, Kind::Struct(f) => f.iter().position(|f| f.label == part)?, Kind::Tuple(e) => { let i = part.parse::<usize>().ok()?; if i < e.len() { i } else { return None } } _ => return None };
        out.push(i); cur = child(cur, i)?;
    }
    Some(out)
}
pub fn names(c: &mut Ctx) {
    while c.time_left() {
        let (d, w) = (1 + c.rng.below(4), 1 + c.rng.below(4)); let t = gen_type(&mut c.rng, d, w, false);
        for _ in 0..8 {
            // a name that often resolves
            let mut name = String::new(); let mut cur = Some(&t); let mut first = true;
            loop {
                let n = cur.map_or(0, |t| match &t.kind { Kind::Enum(c) => c.len(), Kind::Struct(f) => f.len(), Kind::Tuple(e) => e.len(), _ => 0 });
                if (n == 0 && !c.rng.chance(1, 6)) || (!first && c.rng.chance(1, 5)) { break; }
                if !first { name.push('.') } first = false;
                let i = if n > 0 { c.rng.below(n) } else { 0 };
                let part = match cur.map(|t| &t.kind) { Some(Kind::Enum(c)) if n > 0 => c[i].label.clone(), Some(Kind::Struct(f)) if n > 0 => f[i].label.clone(), Some(Kind::Tuple(_)) => (i + c.rng.chance(1, 5) as usize).to_string(), _ => "0".into() };
                name.push_str(if c.rng.chance(1, 10) { *c.rng.pick(&["", "zz", "00", "-1", "+0", "18446744073709551616", "a"]) } else { &part });
                cur = cur.and_then(|t| child(t, i)); if name.len() > 60 { break; }
            }
            if c.rng.chance(1, 15) { name.push('.') }
            let want = model(&t, &name);
            c.case(hash_of(&(format!("{:?}", t), &name)), want.as_ref().map_or(false, |p| p.len() > 1), || format!("name {:?} in {:?}", name, t), || {
                match (Path::resolve_qualified_name(&t, &name), &want) {
                    (Ok(p), Some(w)) => { check!(p.path() == &w[..], "resolves to {:?} instead of {:?}", p.path(), w); let mut e = &t; for i in w { e = child(e, *i).unwrap() } check!(std::ptr::eq(t.extract(&p), e), "extract reaches another element"); }
                    (Err(_), None) => {} (Ok(p), None) => check!(false, "resolves to {:?} although it names nothing", p.path()), (Err(e), Some(w)) => check!(false, "refused ({}) although it names {:?}", e, w),
                } Ok(()) });
        }
    }
}

// ---------------------------------------------------------------- P12
#[derive(Clone, Debug, PartialEq)]
pub enum Stored { P(PrimitiveValue), S(String), T(usize) }
pub fn gen_prim(r: &mut Rng, p: Primitive) -> PrimitiveValue {
    let x = r.edgy(); let w = ((r.edgy() as u128) << 64) | x as u128;
    match p {
        Primitive::Bool => PrimitiveValue::Bool(x & 1 == 1), Primitive::Char => PrimitiveValue::Char(gen_char(r)),
        Primitive::U8 => PrimitiveValue::U8(x as u8), Primitive::U16 => PrimitiveValue::U16(x as u16), Primitive::U32 => PrimitiveValue::U32(x as u32), Primitive::U64 => PrimitiveValue::U64(x), Primitive::U128 => PrimitiveValue::U128(w),
        Primitive::I8 => PrimitiveValue::I8(x as i8), Primitive::I16 => PrimitiveValue::I16(x as i16), Primitive::I32 => PrimitiveValue::I32(x as i32), Primitive::I64 => PrimitiveValue::I64(x as i64), Primitive::I128 => PrimitiveValue::I128(w as i128),
        Primitive::F32 => PrimitiveValue::F32(match r.below(4) { 0 => x as f32, 1 => (x as i64 as f64 / 1024.0) as f32, _ => { let f = f32::from_bits(x as u32); if f.is_finite() { f } else { -0.0 } } }),
        Primitive::F64 => PrimitiveValue::F64(match r.below(4) { 0 => x as f64, 1 => x as i64 as f64 / 1024.0, _ => { let f = f64::from_bits(r.next()); if f.is_finite() { f } else { -0.0 } } }),
    }
}
pub fn gen_char(r: &mut Rng) -> char {
    let x = match r.below(7) { 0 => r.below(32) as u32, 1 => r.below(128) as u32, 2 => 0x7f + r.below(3) as u32, 3 => 0x7fe + r.below(4) as u32, 4 => r.below(0x10000) as u32, 5 => 0xfffd + r.below(6) as u32, _ => r.below(0x110000) as u32 };
    match r.below(12) { 0 => '"', 1 => '\\', 2 => '/', 3 => '\0', 4 => '\u{2028}', _ => std::char::from_u32(x).unwrap_or('\u{e000}') }
}
pub fn gen_string(r: &mut Rng) -> String { let n = match r.below(6) { 0 => 0, 1 => 1, 2 => r.below(40), _ => r.below(8) }; (0..n).map(|_| gen_char(r)).collect() }
pub fn same_prim(a: &PrimitiveValue, b: &PrimitiveValue) -> bool { match (a, b) { (PrimitiveValue::F32(x), PrimitiveValue::F32(y)) => x.to_bits() == y.to_bits(), (PrimitiveValue::F64(x), PrimitiveValue::F64(y)) => x.to_bits() == y.to_bits(), _ => a == b } }
pub fn get_prim(d: &IntermediateDataSource, p: &Path, t: Primitive) -> PrimitiveValue {
    match t { Primitive::Bool => PrimitiveValue::Bool(d.get_bool(p)), Primitive::Char => PrimitiveValue::Char(d.get_char(p)), Primitive::U8 => PrimitiveValue::U8(d.get_u8(p)), Primitive::U16 => PrimitiveValue::U16(d.get_u16(p)), Primitive::U32 => PrimitiveValue::U32(d.get_u32(p)), Primitive::U64 => PrimitiveValue::U64(d.get_u64(p)), Primitive::U128 => PrimitiveValue::U128(d.get_u128(p)), Primitive::I8 => PrimitiveValue::I8(d.get_i8(p)), Primitive::I16 => PrimitiveValue::I16(d.get_i16(p)), Primitive::I32 => PrimitiveValue::I32(d.get_i32(p)), Primitive::I64 => PrimitiveValue::I64(d.get_i64(p)), Primitive::I128 => PrimitiveValue::I128(d.get_i128(p)), Primitive::F32 => PrimitiveValue::F32(d.get_f32(p)), Primitive::F64 => PrimitiveValue::F64(d.get_f64(p)) }
}
fn agrees(d: &IntermediateDataSource, p: &Path, want: Option<&Stored>) -> Result<(), String> {
    match want {
        Some(Stored::P(v)) => { let g = quiet(|| get_prim(d, p, v.primitive())); check!(g.as_ref().map_or(false, |g| same_prim(g, v)), "{:?} reads {:?} instead of {:?}", p.path(), g, v) }
        Some(Stored::S(s)) => { let g = quiet(|| (d.get_bytes(p).to_vec(), d.get_length(p))); check!(g == Ok((s.as_bytes().to_vec(), s.len())), "{:?} reads {:?} instead of {:?}", p.path(), g, s) }
        Some(Stored::T(t)) => { let g = quiet(|| d.get_case_tag(p)); check!(g == Ok(*t), "{:?} reads {:?} instead of tag {}", p.path(), g, t) }
        None => {}
    }
    // what was not stored (or not with this type) is not readable
    for t in PRIMS.iter() { if !matches!(want, Some(Stored::P(v)) if v.primitive() == *t) { let g = quiet(|| get_prim(d, p, *t)); check!(g.is_err(), "{:?} reads {:?} though {:?} was stored", p.path(), g, want) } }
    if !matches!(want, Some(Stored::S(_))) { check!(quiet(|| d.get_bytes(p).len()).is_err() && quiet(|| d.get_length(p)).is_err(), "{:?} reads as string though {:?} was stored", p.path(), want) }
    if !matches!(want, Some(Stored::T(_))) { check!(quiet(|| d.get_case_tag(p)).is_err(), "{:?} reads as case tag though {:?} was stored", p.path(), want) }
    Ok(())
}
pub fn store(d: &mut IntermediateDataSource, p: &Path, v: &Stored) { match v { Stored::P(v) => d.add_primitive(p, *v), Stored::S(s) => d.add_string(p, s), Stored::T(t) => d.add_case_tag(p, *t) } }
pub fn values(c: &mut Ctx) {
    while c.time_left() {
        let mut ops: Vec<Option<(Vec<usize>, Stored)>> = vec![]; let n = 1 + c.rng.below(14);
        let paths: Vec<Vec<usize>> = (0..1 + c.rng.below(6)).map(|_| { let k = c.rng.below(4); (0..k).map(|_| c.rng.below(3)).collect() }).collect();
        for _ in 0..n { if c.rng.chance(1, 12) { ops.push(None) } else { let p = c.rng.pick(&paths).clone(); let v = match c.rng.below(5) { 0 => Stored::S(gen_string(&mut c.rng)), 1 => Stored::T(c.rng.edgy() as usize), _ => { let t = *c.rng.pick(&PRIMS); Stored::P(gen_prim(&mut c.rng, t)) } }; ops.push(Some((p, v))) } }
        c.case(hash_of(&format!("{:?}", ops)), n > 2, || format!("{:?}", ops), || {
            let mut d = IntermediateDataSource::new(); let mut m: HashMap<Vec<usize>, Stored> = HashMap::new();
            for o in &ops {
                match o { None => { d.clear(); m.clear() } Some((p, v)) => { store(&mut d, &path(p), v); m.insert(p.clone(), v.clone()); } }
                for p in &paths { if let Some(Stored::P(v)) = m.get(p) { check!(same_prim(&get_prim(&d, &path(p), v.primitive()), v), "{:?} loses {:?}", p, v) } }
            }
            for p in &paths { agrees(&d, &path(p), m.get(p))? }
            Ok(()) });
    }
}

== include base.inc
== include std.inc
== source ty core/types/mod.rs
== source va core/value.rs
== source util core/util.rs
== type ty Primitive #[derive(Copy,Clone,PartialEq,Eq,Structural)]
== type va PrimitiveValue #[derive(Copy,Clone)]
== type ty Components
== type ty Fields
== type ty Cases
== type ty Field
== type ty Case
== type ty Kind
== type ty Type
== type ty Path
== include types.inc
== include values.inc
== include pathspec.inc
== include arithspec.inc
== include lay.inc
== type ma LengthEncodingType
== text
// ---- bytes (util::set_value, util::get_value: proved by Kani for every offset, content and value)
pub trait Raw: Copy + Sized { spec fn size() -> int; spec fn dec(b: Seq<u8>) -> Self; }
pub uninterp spec fn dec_bool(b: Seq<u8>) -> bool;
impl Raw for bool { open spec fn size() -> int { 1 } open spec fn dec(b: Seq<u8>) -> bool { dec_bool(b) } }
pub uninterp spec fn dec_char(b: Seq<u8>) -> char;
impl Raw for char { open spec fn size() -> int { 4 } open spec fn dec(b: Seq<u8>) -> char { dec_char(b) } }
pub uninterp spec fn dec_u8(b: Seq<u8>) -> u8;
impl Raw for u8 { open spec fn size() -> int { 1 } open spec fn dec(b: Seq<u8>) -> u8 { dec_u8(b) } }
pub uninterp spec fn dec_u16(b: Seq<u8>) -> u16;
impl Raw for u16 { open spec fn size() -> int { 2 } open spec fn dec(b: Seq<u8>) -> u16 { dec_u16(b) } }
pub uninterp spec fn dec_u32(b: Seq<u8>) -> u32;
impl Raw for u32 { open spec fn size() -> int { 4 } open spec fn dec(b: Seq<u8>) -> u32 { dec_u32(b) } }
pub uninterp spec fn dec_u64(b: Seq<u8>) -> u64;
impl Raw for u64 { open spec fn size() -> int { 8 } open spec fn dec(b: Seq<u8>) -> u64 { dec_u64(b) } }
pub uninterp spec fn dec_u128(b: Seq<u8>) -> u128;
impl Raw for u128 { open spec fn size() -> int { 16 } open spec fn dec(b: Seq<u8>) -> u128 { dec_u128(b) } }
pub uninterp spec fn dec_i8(b: Seq<u8>) -> i8;
impl Raw for i8 { open spec fn size() -> int { 1 } open spec fn dec(b: Seq<u8>) -> i8 { dec_i8(b) } }
pub uninterp spec fn dec_i16(b: Seq<u8>) -> i16;
impl Raw for i16 { open spec fn size() -> int { 2 } open spec fn dec(b: Seq<u8>) -> i16 { dec_i16(b) } }
pub uninterp spec fn dec_i32(b: Seq<u8>) -> i32;
impl Raw for i32 { open spec fn size() -> int { 4 } open spec fn dec(b: Seq<u8>) -> i32 { dec_i32(b) } }
pub uninterp spec fn dec_i64(b: Seq<u8>) -> i64;
impl Raw for i64 { open spec fn size() -> int { 8 } open spec fn dec(b: Seq<u8>) -> i64 { dec_i64(b) } }
pub uninterp spec fn dec_i128(b: Seq<u8>) -> i128;
impl Raw for i128 { open spec fn size() -> int { 16 } open spec fn dec(b: Seq<u8>) -> i128 { dec_i128(b) } }
pub uninterp spec fn dec_f32(b: Seq<u8>) -> f32;
impl Raw for f32 { open spec fn size() -> int { 4 } open spec fn dec(b: Seq<u8>) -> f32 { dec_f32(b) } }
pub uninterp spec fn dec_f64(b: Seq<u8>) -> f64;
impl Raw for f64 { open spec fn size() -> int { 8 } open spec fn dec(b: Seq<u8>) -> f64 { dec_f64(b) } }
pub open spec fn rd<T: Raw>(b: Seq<u8>, off: int) -> T { T::dec(b.subrange(off, off + T::size())) }
pub open spec fn written(b: Seq<u8>, c: Seq<u8>, off: int, n: int) -> bool { b.len() == c.len() && forall|i: int| 0 <= i < b.len() && !(off <= i < off + n) ==> #[trigger] c[i] == b[i] }
pub open spec fn prim_rd(k: Primitive, b: Seq<u8>, off: int) -> PrimitiveValue { match k { Primitive::Bool => PrimitiveValue::Bool(rd::<bool>(b, off)), Primitive::Char => PrimitiveValue::Char(rd::<char>(b, off)), Primitive::U8 => PrimitiveValue::U8(rd::<u8>(b, off)), Primitive::U16 => PrimitiveValue::U16(rd::<u16>(b, off)), Primitive::U32 => PrimitiveValue::U32(rd::<u32>(b, off)), Primitive::U64 => PrimitiveValue::U64(rd::<u64>(b, off)), Primitive::U128 => PrimitiveValue::U128(rd::<u128>(b, off)), Primitive::I8 => PrimitiveValue::I8(rd::<i8>(b, off)), Primitive::I16 => PrimitiveValue::I16(rd::<i16>(b, off)), Primitive::I32 => PrimitiveValue::I32(rd::<i32>(b, off)), Primitive::I64 => PrimitiveValue::I64(rd::<i64>(b, off)), Primitive::I128 => PrimitiveValue::I128(rd::<i128>(b, off)), Primitive::F32 => PrimitiveValue::F32(rd::<f32>(b, off)), Primitive::F64 => PrimitiveValue::F64(rd::<f64>(b, off)) } }
pub open spec fn cval(k: Primitive, b: Seq<u8>, off: int) -> usize { match k { Primitive::U8 => rd::<u8>(b, off) as usize, Primitive::U16 => rd::<u16>(b, off) as usize, Primitive::U32 => rd::<u32>(b, off) as usize, Primitive::U64 => rd::<u64>(b, off) as usize, _ => 0 } }
// ---- bits of a container
pub open spec fn low(nb: u8) -> u128 { ((1u128 << nb) - 1) as u128 }
pub open spec fn pick(c: usize, bo: u8, nb: u8) -> usize { (((c as u128) >> bo) & low(nb)) as usize }
pub proof fn low_ok(nb: u8) requires nb <= 64 ensures low(nb) == sub(1u128 << nb, 1), (1u128 << nb) >= 1, (1u128 << nb) <= 0x1_0000_0000_0000_0000u128 { assert((1u128 << nb) >= 1 && (1u128 << nb) <= 0x1_0000_0000_0000_0000u128) by (bit_vector) requires nb <= 64; }
pub open spec fn put_u8(c: u8, tag: usize, bo: u8, nb: u8) -> u8 { (c & !((low(nb) << bo) as u8)) | ((((tag as u128) << bo) as u8) & ((low(nb) << bo) as u8)) }
pub broadcast proof fn put_u8_own(c: u8, tag: usize, bo: u8, nb: u8) requires bo + nb <= 8, tag < (1u128 << nb) ensures pick((#[trigger] put_u8(c, tag, bo, nb)) as usize, bo, nb) == tag
{ low_ok(nb); let l = low(nb); let m = (l << bo) as u8; let c1 = (c & !m) | ((((tag as u128) << bo) as u8) & m);
  assert((((c1 as u128) >> bo) & l) == tag as u128) by (bit_vector) requires bo <= 8, nb <= 8, bo + nb <= 8, (tag as u128) < (1u128 << nb), l == sub(1u128 << nb, 1), m == (l << bo) as u8, c1 == (c & !m) | ((((tag as u128) << bo) as u8) & m); }
pub proof fn put_u8_other(c: u8, tag: usize, bo: u8, nb: u8, b2: u8, n2: u8) requires bo + nb <= 8, b2 + n2 <= 8, bo + nb <= b2 || b2 + n2 <= bo ensures pick(put_u8(c, tag, bo, nb) as usize, b2, n2) == pick(c as usize, b2, n2)
{ low_ok(nb); low_ok(n2); let l = low(nb); let k = low(n2); let m = (l << bo) as u8; let c1 = (c & !m) | ((((tag as u128) << bo) as u8) & m);
  assert((((c1 as u128) >> b2) & k) == (((c as u128) >> b2) & k)) by (bit_vector) requires bo + nb <= b2 || b2 + n2 <= bo, bo <= 8, nb <= 8, b2 <= 8, n2 <= 8, bo + nb <= 8, b2 + n2 <= 8, l == sub(1u128 << nb, 1), k == sub(1u128 << n2, 1), m == (l << bo) as u8, c1 == (c & !m) | ((((tag as u128) << bo) as u8) & m); }
pub open spec fn put_u16(c: u16, tag: usize, bo: u8, nb: u8) -> u16 { (c & !((low(nb) << bo) as u16)) | ((((tag as u128) << bo) as u16) & ((low(nb) << bo) as u16)) }
pub broadcast proof fn put_u16_own(c: u16, tag: usize, bo: u8, nb: u8) requires bo + nb <= 16, tag < (1u128 << nb) ensures pick((#[trigger] put_u16(c, tag, bo, nb)) as usize, bo, nb) == tag
{ low_ok(nb); let l = low(nb); let m = (l << bo) as u16; let c1 = (c & !m) | ((((tag as u128) << bo) as u16) & m);
  assert((((c1 as u128) >> bo) & l) == tag as u128) by (bit_vector) requires bo <= 16, nb <= 16, bo + nb <= 16, (tag as u128) < (1u128 << nb), l == sub(1u128 << nb, 1), m == (l << bo) as u16, c1 == (c & !m) | ((((tag as u128) << bo) as u16) & m); }
pub proof fn put_u16_other(c: u16, tag: usize, bo: u8, nb: u8, b2: u8, n2: u8) requires bo + nb <= 16, b2 + n2 <= 16, bo + nb <= b2 || b2 + n2 <= bo ensures pick(put_u16(c, tag, bo, nb) as usize, b2, n2) == pick(c as usize, b2, n2)
{ low_ok(nb); low_ok(n2); let l = low(nb); let k = low(n2); let m = (l << bo) as u16; let c1 = (c & !m) | ((((tag as u128) << bo) as u16) & m);
  assert((((c1 as u128) >> b2) & k) == (((c as u128) >> b2) & k)) by (bit_vector) requires bo + nb <= b2 || b2 + n2 <= bo, bo <= 16, nb <= 16, b2 <= 16, n2 <= 16, bo + nb <= 16, b2 + n2 <= 16, l == sub(1u128 << nb, 1), k == sub(1u128 << n2, 1), m == (l << bo) as u16, c1 == (c & !m) | ((((tag as u128) << bo) as u16) & m); }
pub open spec fn put_u32(c: u32, tag: usize, bo: u8, nb: u8) -> u32 { (c & !((low(nb) << bo) as u32)) | ((((tag as u128) << bo) as u32) & ((low(nb) << bo) as u32)) }
pub broadcast proof fn put_u32_own(c: u32, tag: usize, bo: u8, nb: u8) requires bo + nb <= 32, tag < (1u128 << nb) ensures pick((#[trigger] put_u32(c, tag, bo, nb)) as usize, bo, nb) == tag
{ low_ok(nb); let l = low(nb); let m = (l << bo) as u32; let c1 = (c & !m) | ((((tag as u128) << bo) as u32) & m);
  assert((((c1 as u128) >> bo) & l) == tag as u128) by (bit_vector) requires bo <= 32, nb <= 32, bo + nb <= 32, (tag as u128) < (1u128 << nb), l == sub(1u128 << nb, 1), m == (l << bo) as u32, c1 == (c & !m) | ((((tag as u128) << bo) as u32) & m); }
pub proof fn put_u32_other(c: u32, tag: usize, bo: u8, nb: u8, b2: u8, n2: u8) requires bo + nb <= 32, b2 + n2 <= 32, bo + nb <= b2 || b2 + n2 <= bo ensures pick(put_u32(c, tag, bo, nb) as usize, b2, n2) == pick(c as usize, b2, n2)
{ low_ok(nb); low_ok(n2); let l = low(nb); let k = low(n2); let m = (l << bo) as u32; let c1 = (c & !m) | ((((tag as u128) << bo) as u32) & m);
  assert((((c1 as u128) >> b2) & k) == (((c as u128) >> b2) & k)) by (bit_vector) requires bo + nb <= b2 || b2 + n2 <= bo, bo <= 32, nb <= 32, b2 <= 32, n2 <= 32, bo + nb <= 32, b2 + n2 <= 32, l == sub(1u128 << nb, 1), k == sub(1u128 << n2, 1), m == (l << bo) as u32, c1 == (c & !m) | ((((tag as u128) << bo) as u32) & m); }
pub open spec fn put_u64(c: u64, tag: usize, bo: u8, nb: u8) -> u64 { (c & !((low(nb) << bo) as u64)) | ((((tag as u128) << bo) as u64) & ((low(nb) << bo) as u64)) }
pub broadcast proof fn put_u64_own(c: u64, tag: usize, bo: u8, nb: u8) requires bo + nb <= 64, tag < (1u128 << nb) ensures pick((#[trigger] put_u64(c, tag, bo, nb)) as usize, bo, nb) == tag
{ low_ok(nb); let l = low(nb); let m = (l << bo) as u64; let c1 = (c & !m) | ((((tag as u128) << bo) as u64) & m);
  assert((((c1 as u128) >> bo) & l) == tag as u128) by (bit_vector) requires bo <= 64, nb <= 64, bo + nb <= 64, (tag as u128) < (1u128 << nb), l == sub(1u128 << nb, 1), m == (l << bo) as u64, c1 == (c & !m) | ((((tag as u128) << bo) as u64) & m); }
pub proof fn put_u64_other(c: u64, tag: usize, bo: u8, nb: u8, b2: u8, n2: u8) requires bo + nb <= 64, b2 + n2 <= 64, bo + nb <= b2 || b2 + n2 <= bo ensures pick(put_u64(c, tag, bo, nb) as usize, b2, n2) == pick(c as usize, b2, n2)
{ low_ok(nb); low_ok(n2); let l = low(nb); let k = low(n2); let m = (l << bo) as u64; let c1 = (c & !m) | ((((tag as u128) << bo) as u64) & m);
  assert((((c1 as u128) >> b2) & k) == (((c as u128) >> b2) & k)) by (bit_vector) requires bo + nb <= b2 || b2 + n2 <= bo, bo <= 64, nb <= 64, b2 <= 64, n2 <= 64, bo + nb <= 64, b2 + n2 <= 64, l == sub(1u128 << nb, 1), k == sub(1u128 << n2, 1), m == (l << bo) as u64, c1 == (c & !m) | ((((tag as u128) << bo) as u64) & m); }
// ---- the size of a record
pub open spec fn text_len(m: Vals, x: Pos) -> int { encode_utf8(str_at(m, x)).len() as int }
pub open spec fn vsize(v: VariableSizeField, m: Vals) -> int decreases v, 0int {
  match v.kind { VariableSizeFieldKind::String => text_len(m, v.path.0@), VariableSizeFieldKind::Enum { cases } => { let t = tag_at(m, v.path.0@) as int; if t < cases@.len() { lsize(cases@[t], m) } else { 0 } } } }
pub open spec fn voff(l: Layout, m: Vals, k: nat) -> int decreases l, k { if k == 0 || k > l.var_size_fields@.len() { l.var_field_offset as int } else { voff(l, m, (k - 1) as nat) + vsize(l.var_size_fields@[k - 1], m) } }
pub open spec fn nvar(l: Layout) -> nat { l.var_size_fields@.len() }
pub open spec fn lsize(l: Layout, m: Vals) -> int decreases l, l.var_size_fields@.len() + 1 { round_up(voff(l, m, l.var_size_fields@.len()), l.alignment as int) }
// ---- what a buffer that holds the record of the values looks like
pub open spec fn held(f: FixedSizeField, m: Vals, b: Seq<u8>) -> bool { let x = f.path.0@; let o = f.offset as int; match f.kind {
  FixedSizeFieldKind::Primitve(k) => prim_rd(k, b, o) == prim_at(m, x), FixedSizeFieldKind::Length => rd::<u32>(b, o) == text_len(m, x),
  FixedSizeFieldKind::Bitfield { primitive, bit_offset, num_bits } => pick(cval(primitive, b, o), bit_offset, num_bits) == tag_at(m, x), _ => false } }
pub open spec fn vheld(v: VariableSizeField, m: Vals, b: Seq<u8>, o: int) -> bool decreases v { let x = v.path.0@; match v.kind {
  VariableSizeFieldKind::String => b.subrange(o, o + text_len(m, x)) == encode_utf8(str_at(m, x)),
  VariableSizeFieldKind::Enum { cases } => tag_at(m, x) < cases@.len() && encoded(cases@[tag_at(m, x) as int], m, b.skip(o)) } }
pub open spec fn all_held(l: Layout, m: Vals, b: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> held(#[trigger] l.fixed_size_fields@[i], m, b) }
pub open spec fn encoded(l: Layout, m: Vals, b: Seq<u8>) -> bool decreases l {
  &&& lsize(l, m) <= b.len()
  &&& all_held(l, m, b, l.fixed_size_fields@.len() as int)
  &&& forall|k: int| 0 <= k < l.var_size_fields@.len() ==> vheld(#[trigger] l.var_size_fields@[k], m, b, voff(l, m, k as nat)) }
// ---- a layout and values that belong together
pub open spec fn fit_as(l: Layout, m: Vals, t: Type, p: Pos) -> bool { lay_ok(l, t, p) && covers(m, t, p) }
pub open spec fn fit(l: Layout, m: Vals) -> bool { exists|t: Type, p: Pos| #[trigger] fit_as(l, m, t, p) }
// strings are at most 4 GiB long
pub open spec fn short(m: Vals) -> bool { forall|x: Pos| has_str(m, x) ==> #[trigger] text_len(m, x) <= u32::MAX }
pub proof fn covers_leaf(m: Vals, t: Type, p: Pos, x: Pos) requires covers(m, t, p), leafp(t, p, x) ensures covers(m, atp(t, p, x), x) decreases x.len() - p.len()
{ if rel(p, x).len() == 0 { assert(x =~= p); } else { leaf_lower(t, p, x); let i = rel(p, x)[0]; covers_child(m, t, p, n_children(t), i as int); covers_leaf(m, child(t, i as int), p.push(i), x); } }
pub open spec fn fixed_fit(f: FixedSizeField, m: Vals) -> bool { let x = f.path.0@; match f.kind {
  FixedSizeFieldKind::Primitve(k) => has_prim(m, x, k), FixedSizeFieldKind::Length => has_str(m, x),
  FixedSizeFieldKind::Bitfield { primitive, bit_offset, num_bits } => has_tag(m, x) && container(primitive) && bit_offset + num_bits <= 8 * psize(primitive) && num_bits <= 64 && tag_at(m, x) < (1u128 << num_bits), _ => false } }
pub proof fn fixed_ok(l: Layout, m: Vals, i: int) requires fit(l, m), 0 <= i < l.fixed_size_fields@.len() ensures fixed_fit(l.fixed_size_fields@[i], m), placed(l.fixed_size_fields@[i], l.var_field_offset as int)
{ let (t, p) = choose|t: Type, p: Pos| #[trigger] fit_as(l, m, t, p); let f = l.fixed_size_fields@[i]; assert(fok(f, t, p)); covers_leaf(m, t, p, f.path.0@); 
  match f.kind { FixedSizeFieldKind::Bitfield { primitive, bit_offset, num_bits } => { let a = num_bits; assert((1u128 << (a as u128)) == (1u128 << a)) by (bit_vector); }, _ => {} } }
pub open spec fn var_fit(v: VariableSizeField, m: Vals) -> bool { let x = v.path.0@; match v.kind { VariableSizeFieldKind::String => has_str(m, x), VariableSizeFieldKind::Enum { cases } => has_tag(m, x) && tag_at(m, x) < cases@.len() && fit(cases@[tag_at(m, x) as int], m) } }
pub open spec fn guard_ok(v: VariableSizeField, f: FixedSizeField) -> bool { f.path.0@ == v.path.0@ && match v.kind { VariableSizeFieldKind::String => f.kind is Length, _ => f.kind is Bitfield } }
pub proof fn var_ok(l: Layout, m: Vals, k: int) requires fit(l, m), 0 <= k < nvar(l) ensures ({ let v = l.var_size_fields@[k]; var_fit(v, m) && v.fixed_field_index < l.fixed_size_fields@.len() && guard_ok(v, l.fixed_size_fields@[v.fixed_field_index as int]) })
{ let (t, p) = choose|t: Type, p: Pos| #[trigger] fit_as(l, m, t, p); let v = l.var_size_fields@[k]; assert(vok(v, t, p)); assert(linked(v, l.fixed_size_fields@)); covers_leaf(m, t, p, v.path.0@);
  let f = l.fixed_size_fields@[v.fixed_field_index as int]; assert(fok(f, t, p)); let a = atp(t, p, v.path.0@);
  match v.kind { VariableSizeFieldKind::Enum { cases } => { let c = a.kind->Enum_0; let g = tag_at(m, v.path.0@); assert(lay_ok(cases@[g as int], *c@[g as int].typ, v.path.0@.push(g))); assert(fit_as(cases@[g as int], m, *c@[g as int].typ, v.path.0@.push(g))); }, _ => {} } }
pub proof fn fit_align(l: Layout, m: Vals) requires fit(l, m) ensures al_ok(l.alignment as int) { let (t, p) = choose|t: Type, p: Pos| #[trigger] fit_as(l, m, t, p); }
// ---- sizes
pub proof fn up_ok(v: int, a: int) requires v >= 0, a >= 0 ensures round_up(v, a) >= 0, a >= 1 ==> round_up(v, a) >= v
{ if a >= 1 { assert(((v + a - 1) / a) * a >= v) by (nonlinear_arith) requires a >= 1, v >= 0; } else { assert(((v + a - 1) / a) * a == 0) by (nonlinear_arith) requires a == 0; } }
pub proof fn vsize_pos(v: VariableSizeField, m: Vals) ensures vsize(v, m) >= 0 decreases v, 0int { match v.kind { VariableSizeFieldKind::String => {}, VariableSizeFieldKind::Enum { cases } => { let t = tag_at(m, v.path.0@) as int; if t < cases@.len() { let c = cases@[t]; voff_mono(c, m, 0, nvar(c)); up_ok(voff(c, m, nvar(c)), c.alignment as int); } } } }
pub proof fn voff_mono(l: Layout, m: Vals, j: nat, k: nat) requires j <= k <= nvar(l) ensures l.var_field_offset <= voff(l, m, j) <= voff(l, m, k) decreases l, k { if k > 0 { if j < k { voff_mono(l, m, j, (k - 1) as nat); } else { voff_mono(l, m, (k - 1) as nat, (k - 1) as nat); } vsize_pos(l.var_size_fields@[k - 1], m); } }
pub proof fn lsize_bound(l: Layout, m: Vals, k: nat) requires k <= nvar(l), al_ok(l.alignment as int) ensures l.var_field_offset <= voff(l, m, k) <= lsize(l, m), k < nvar(l) ==> voff(l, m, k + 1) == voff(l, m, k) + vsize(l.var_size_fields@[k as int], m) && voff(l, m, k + 1) <= lsize(l, m), vsize(l.var_size_fields@[k as int], m) >= 0
{ voff_mono(l, m, k, nvar(l)); up_ok(voff(l, m, nvar(l)), l.alignment as int); vsize_pos(l.var_size_fields@[k as int], m); if k < nvar(l) { voff_mono(l, m, k + 1, nvar(l)); } }
// ---- a record does not depend on the bytes after it
pub open spec fn same_upto(b: Seq<u8>, c: Seq<u8>, n: int) -> bool { n <= b.len() && n <= c.len() && forall|i: int| 0 <= i < n ==> #[trigger] c[i] == b[i] }
pub proof fn rd_same<T: Raw>(b: Seq<u8>, c: Seq<u8>, off: int) requires 0 <= off, 0 <= T::size(), off + T::size() <= b.len(), off + T::size() <= c.len(), forall|i: int| off <= i < off + T::size() ==> #[trigger] c[i] == b[i] ensures rd::<T>(c, off) == rd::<T>(b, off)
{ assert(c.subrange(off, off + T::size()) =~= b.subrange(off, off + T::size())); }
pub proof fn held_same(f: FixedSizeField, m: Vals, b: Seq<u8>, c: Seq<u8>) requires fixed_fit(f, m), f.offset + ksize(f.kind) <= b.len(), f.offset + ksize(f.kind) <= c.len(), forall|i: int| f.offset <= i < f.offset + ksize(f.kind) ==> #[trigger] c[i] == b[i] ensures held(f, m, c) == held(f, m, b)
{ assert(b.subrange(f.offset as int, f.offset + ksize(f.kind)) =~= c.subrange(f.offset as int, f.offset + ksize(f.kind))); }
pub proof fn vheld_same(v: VariableSizeField, m: Vals, b: Seq<u8>, c: Seq<u8>, o: int) requires var_fit(v, m), 0 <= o, vheld(v, m, b, o), same_upto(b, c, o + vsize(v, m)) ensures vheld(v, m, c, o) decreases v
{ hide(fit); hide(held); vsize_pos(v, m); match v.kind { VariableSizeFieldKind::String => { assert(b.subrange(o, o + vsize(v, m)) =~= c.subrange(o, o + vsize(v, m))); }, VariableSizeFieldKind::Enum { cases } => { let l = cases@[tag_at(m, v.path.0@) as int]; encoded_same(l, m, b.skip(o), c.skip(o)); } } }
pub proof fn encoded_same(l: Layout, m: Vals, b: Seq<u8>, c: Seq<u8>) requires fit(l, m), encoded(l, m, b), same_upto(b, c, lsize(l, m)) ensures encoded(l, m, c) decreases l
{ hide(fit); hide(held); fit_align(l, m); lsize_bound(l, m, 0);
  assert forall|i: int| 0 <= i < l.fixed_size_fields@.len() implies held(#[trigger] l.fixed_size_fields@[i], m, c) by { fixed_ok(l, m, i); assert(held(l.fixed_size_fields@[i], m, b)); held_same(l.fixed_size_fields@[i], m, b, c); }
  assert forall|k: int| 0 <= k < nvar(l) implies vheld(#[trigger] l.var_size_fields@[k], m, c, voff(l, m, k as nat)) by { var_ok(l, m, k); lsize_bound(l, m, k as nat); vheld_same(l.var_size_fields@[k], m, b, c, voff(l, m, k as nat)); } }
// ---- writing one element leaves the others
pub proof fn pick_other(k: Primitive, b: Seq<u8>, c: Seq<u8>, o: int, tag: usize, bo: u8, nb: u8, b2: u8, n2: u8)
  requires container(k), bo + nb <= 8 * psize(k), b2 + n2 <= 8 * psize(k), bo + nb <= b2 || b2 + n2 <= bo, put(k, b, c, o, tag, bo, nb) ensures pick(cval(k, c, o), b2, n2) == pick(cval(k, b, o), b2, n2)
{ match k { Primitive::U8 => { put_u8_other(rd::<u8>(b, o), tag, bo, nb, b2, n2); }, Primitive::U16 => { put_u16_other(rd::<u16>(b, o), tag, bo, nb, b2, n2); }, Primitive::U32 => { put_u32_other(rd::<u32>(b, o), tag, bo, nb, b2, n2); }, Primitive::U64 => { put_u64_other(rd::<u64>(b, o), tag, bo, nb, b2, n2); }, _ => {} } }
pub open spec fn put(k: Primitive, b: Seq<u8>, c: Seq<u8>, o: int, tag: usize, bo: u8, nb: u8) -> bool { match k { Primitive::U8 => rd::<u8>(c, o) == put_u8(rd::<u8>(b, o), tag, bo, nb), Primitive::U16 => rd::<u16>(c, o) == put_u16(rd::<u16>(b, o), tag, bo, nb), Primitive::U32 => rd::<u32>(c, o) == put_u32(rd::<u32>(b, o), tag, bo, nb), Primitive::U64 => rd::<u64>(c, o) == put_u64(rd::<u64>(b, o), tag, bo, nb), _ => false } }
pub proof fn pick_own(k: Primitive, b: Seq<u8>, c: Seq<u8>, o: int, tag: usize, bo: u8, nb: u8) requires container(k), bo + nb <= 8 * psize(k), tag < (1u128 << nb), put(k, b, c, o, tag, bo, nb) ensures pick(cval(k, c, o), bo, nb) == tag
{ match k { Primitive::U8 => { put_u8_own(rd::<u8>(b, o), tag, bo, nb); }, Primitive::U16 => { put_u16_own(rd::<u16>(b, o), tag, bo, nb); }, Primitive::U32 => { put_u32_own(rd::<u32>(b, o), tag, bo, nb); }, Primitive::U64 => { put_u64_own(rd::<u64>(b, o), tag, bo, nb); }, _ => {} } }
// field g has been stored: its bytes only, and in a container its bits only
pub open spec fn stores(g: FixedSizeField, m: Vals, b: Seq<u8>, c: Seq<u8>) -> bool { written(b, c, g.offset as int, ksize(g.kind)) && match g.kind { FixedSizeFieldKind::Bitfield { primitive, bit_offset, num_bits } => put(primitive, b, c, g.offset as int, tag_at(m, g.path.0@), bit_offset, num_bits), _ => held(g, m, c) } }
pub proof fn stores_own(g: FixedSizeField, m: Vals, b: Seq<u8>, c: Seq<u8>) requires fixed_fit(g, m), stores(g, m, b, c) ensures held(g, m, c)
{ match g.kind { FixedSizeFieldKind::Bitfield { primitive, bit_offset, num_bits } => { pick_own(primitive, b, c, g.offset as int, tag_at(m, g.path.0@), bit_offset, num_bits); }, _ => {} } }
pub proof fn stores_other(f: FixedSizeField, g: FixedSizeField, m: Vals, b: Seq<u8>, c: Seq<u8>) requires fixed_fit(f, m), fixed_fit(g, m), apart(f, g) || apart(g, f), stores(g, m, b, c), held(f, m, b), f.offset + ksize(f.kind) <= b.len() ensures held(f, m, c)
{ if f.offset + ksize(f.kind) <= g.offset || g.offset + ksize(g.kind) <= f.offset { held_same(f, m, b, c); }
  else { match (f.kind, g.kind) { (FixedSizeFieldKind::Bitfield { primitive: p1, bit_offset: o1, num_bits: n1 }, FixedSizeFieldKind::Bitfield { primitive: p2, bit_offset: o2, num_bits: n2 }) => { pick_other(p2, b, c, g.offset as int, tag_at(m, g.path.0@), o2, n2, o1, n1); }, _ => {} } } }
pub proof fn fixed_step(l: Layout, m: Vals, b: Seq<u8>, c: Seq<u8>, i: int) requires fit(l, m), 0 <= i < l.fixed_size_fields@.len(), l.var_field_offset <= b.len(), all_held(l, m, b, i), stores(l.fixed_size_fields@[i], m, b, c) ensures all_held(l, m, c, i + 1)
{ let (t, p) = choose|t: Type, p: Pos| #[trigger] fit_as(l, m, t, p);
  assert forall|j: int| 0 <= j < i + 1 implies held(#[trigger] l.fixed_size_fields@[j], m, c) by { fixed_ok(l, m, j); fixed_ok(l, m, i); let f = l.fixed_size_fields@[j]; let g = l.fixed_size_fields@[i]; if j == i { stores_own(g, m, b, c); } else { assert(apart(f, g)); stores_other(f, g, m, b, c); } } }
pub open spec fn reads_as(l: Layout, m: Vals, b: Seq<u8>) -> bool { fit(l, m) && encoded(l, m, b) }
pub broadcast proof fn up_is(v: int, a: int, r: int) requires #[trigger] rounded_up(v, a, r), a >= 1 ensures r == round_up(v, a)
{ lemma_fundamental_div_mod(r, a); let q = r / a; assert(r == q * a) by (nonlinear_arith) requires r == a * q + r % a, r % a == 0; lemma_fundamental_div_mod_converse(v + a - 1, a, q, v + a - 1 - r); }
pub proof fn al_pow(a: int) requires al_ok(a) ensures p2(a) { lemma2_to64(); assert(pow2(0) == 1 && pow2(1) == 2 && pow2(2) == 4 && pow2(3) == 8 && pow2(4) == 16); }
pub trait VAmt { spec fn amt(self) -> u8; fn vamt(self) -> (r: u8) where Self: Sized ensures r == self.amt(); }
impl VAmt for u8 { open spec fn amt(self) -> u8 { self } fn vamt(self) -> (r: u8) { self } }
impl VAmt for &u8 { open spec fn amt(self) -> u8 { *self } fn vamt(self) -> (r: u8) { *self } }
pub fn vamt<T: VAmt>(x: T) -> (r: u8) ensures r == x.amt() { x.vamt() }
== rewrite ma
&self.var_size_fields[0..$n]
=>
vfirst(&self.var_size_fields, $n)
== rewrite ma
&self.var_size_fields[..$n]
=>
vfirst(&self.var_size_fields, $n)
== rewrite ma
&mut buffer[$o..]
=>
tail_mut(buffer, $o)
== rewrite ma
&$idd[$o..]
=>
tail($idd, $o)
== rewrite ma
&$idd[$a..$b]
=>
vcut($idd, $a, $b)
== rewrite ma
buffer[..$n].copy_from_slice($d)
=>
vcopy(buffer, $n, $d)
== rewrite ma
util::
=>

== rewrite ma
data_source::DataSource
=>
DataSource
== rewrite ma
mem::size_of::<u32>()
=>
4usize
== rewrite ma
mem::size_of::<LengthEncodingType>()
=>
vsize_of_length()
== rewrite ma
sync::Arc<Layout>
=>
Arc<Layout>
== rewrite ma
self.layout.as_ref()
=>
&*self.layout
== rewrite ma
types::IsPrimitive
=>
IsPrimitive
== text
pub fn vsize_of_length() -> (r: usize) ensures r == LengthEncodingType::size() { std::mem::size_of::<LengthEncodingType>() }
// what sizing and writing the k-th variable-size part rely on
pub open spec fn piece(l: Layout, m: Vals, k: int) -> bool { let v = l.var_size_fields@[k]; let o = voff(l, m, k as nat); let x = v.path.0@;
  &&& 0 <= o <= voff(l, m, (k + 1) as nat) <= lsize(l, m) && voff(l, m, (k + 1) as nat) == o + vsize(v, m)
  &&& match v.kind { VariableSizeFieldKind::String => has_str(m, x) && vsize(v, m) == text_len(m, x),
    VariableSizeFieldKind::Enum { cases } => has_tag(m, x) && ({ let t = tag_at(m, x) as int; t < cases@.len() && fit(cases@[t], m) && vsize(v, m) == lsize(cases@[t], m) }) } }
pub proof fn piece_ok(l: Layout, m: Vals, k: int) requires fit(l, m), 0 <= k < nvar(l) ensures piece(l, m, k)
{ fit_align(l, m); var_ok(l, m, k); lsize_bound(l, m, k as nat); }
pub proof fn total(l: Layout, m: Vals) requires fit(l, m) ensures p2(l.alignment as int), l.alignment >= 1, lsize(l, m) == round_up(voff(l, m, nvar(l)), l.alignment as int), 0 <= voff(l, m, 0) == l.var_field_offset <= voff(l, m, nvar(l)) <= lsize(l, m) { fit_align(l, m); al_pow(l.alignment as int); lsize_bound(l, m, nvar(l)); }

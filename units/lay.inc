== source ma core/marshaller.rs
== rewrite ma
types::
=>

== rewrite ma
$idl.$idx.binary_search_by(|$idp| $idp.path.cmp($y).reverse())
=>
vfind(&$idl.$idx, $y)

== rewrite ma
$idl.$idx.binary_search_by(|$idp| $y.cmp(&$idp.path))
=>
vfind(&$idl.$idx, $y)

== rewrite ma
$idx.binary_search_by(|$idp| $idp.path.cmp($y).reverse())
=>
vfind(&$idx, $y)

== rewrite ma
$idx.binary_search_by(|$idp| $y.cmp(&$idp.path))
=>
vfind(&$idx, $y)
== type ma FixedSizeFieldKind #[derive(Copy,Clone)]
== type ma FixedSizeField
== type ma VariableSizeFieldKind
== type ma VariableSizeField
== type ma Index
== type ma Layout
== text
impl Clone for Path { fn clone(&self) -> (r: Path) ensures r.0@ == self.0@ { Path(self.0.clone()) } }
impl Clone for FixedSizeField { fn clone(&self) -> (r: FixedSizeField) ensures r.path.0@ == self.path.0@, r.kind == self.kind, r.offset == self.offset { FixedSizeField { path: self.path.clone(), kind: self.kind, offset: self.offset } } }
// ---- the parts of a type that get storage of their own: what is reached through tuples and structs only
pub open spec fn inner(t: Type) -> bool { t.kind is Tuple || t.kind is Struct }
pub open spec fn stored(t: Type) -> bool { t.kind is Primitive || t.kind is String || t.kind is Enum }
pub open spec fn leaf(t: Type, q: Pos) -> bool decreases q.len() { if q.len() == 0 { stored(t) } else { inner(t) && q[0] < n_children(t) && leaf(child(t, q[0] as int), q.skip(1)) } }
pub open spec fn leafp(t: Type, p: Pos, x: Pos) -> bool { prefix(p, x) && leaf(t, x.skip(p.len() as int)) }
pub open spec fn atp(t: Type, p: Pos, x: Pos) -> Type { follow(t, x.skip(p.len() as int)) }
// ---- storage
pub open spec fn psize(k: Primitive) -> int { match k { Primitive::Bool | Primitive::U8 | Primitive::I8 => 1, Primitive::U16 | Primitive::I16 => 2, Primitive::Char | Primitive::U32 | Primitive::I32 | Primitive::F32 => 4, Primitive::U64 | Primitive::I64 | Primitive::F64 => 8, Primitive::U128 | Primitive::I128 => 16 } }
pub open spec fn ksize(k: FixedSizeFieldKind) -> int { match k { FixedSizeFieldKind::Primitve(p) => psize(p), FixedSizeFieldKind::Length => 4, FixedSizeFieldKind::BitfieldContainer { primitive, .. } => psize(primitive), FixedSizeFieldKind::Bitfield { primitive, .. } => psize(primitive) } }
pub open spec fn container(k: Primitive) -> bool { k == Primitive::U8 || k == Primitive::U16 || k == Primitive::U32 || k == Primitive::U64 }
pub open spec fn wide(bits: u8, n: nat) -> bool { bits <= 64 && n <= (1u128 << (bits as u128)) }
pub open spec fn fits_kind(k: FixedSizeFieldKind, t: Type) -> bool {
  match t.kind { Kind::Primitive(x) => k == FixedSizeFieldKind::Primitve(x), Kind::String => k == FixedSizeFieldKind::Length,
    Kind::Enum(c) => match k { FixedSizeFieldKind::Bitfield { primitive, bit_offset, num_bits } => container(primitive) && bit_offset + num_bits <= 8 * psize(primitive) && wide(num_bits, c@.len()), _ => false },
    _ => false } }
// two elements share no bit
pub open spec fn apart(f: FixedSizeField, g: FixedSizeField) -> bool {
  f.offset + ksize(f.kind) <= g.offset || g.offset + ksize(g.kind) <= f.offset
  || (match (f.kind, g.kind) { (FixedSizeFieldKind::Bitfield { primitive: p1, bit_offset: o1, num_bits: n1 }, FixedSizeFieldKind::Bitfield { primitive: p2, bit_offset: o2, num_bits: n2 }) => f.offset == g.offset && p1 == p2 && (o1 + n1 <= o2 || o2 + n2 <= o1), _ => false }) }
pub open spec fn placed(f: FixedSizeField, w: int) -> bool { f.offset as int % ksize(f.kind) == 0 && f.offset + ksize(f.kind) <= w }
pub open spec fn place_ok(g: Seq<FixedSizeField>, w: int) -> bool {
  &&& forall|i: int| 0 <= i < g.len() ==> placed(#[trigger] g[i], w)
  &&& forall|i: int, j: int| 0 <= i < j < g.len() ==> apart(#[trigger] g[i], #[trigger] g[j]) }
// ---- every element of the type, and nothing else, has a place
pub open spec fn fok(f: FixedSizeField, t: Type, p: Pos) -> bool { leafp(t, p, f.path.0@) && fits_kind(f.kind, atp(t, p, f.path.0@)) }
pub open spec fn varying(t: Type) -> bool { t.kind is String || t.kind is Enum }
pub open spec fn iok(e: Index, g: Seq<FixedSizeField>, v: Seq<VariableSizeField>, t: Type, p: Pos) -> bool {
  &&& e.fixed_size_field_index < g.len() && g[e.fixed_size_field_index as int].path.0@ == e.path.0@
  &&& varying(atp(t, p, e.path.0@)) ==> e.var_size_field_index < v.len() && v[e.var_size_field_index as int].path.0@ == e.path.0@ }
pub open spec fn linked(k: VariableSizeField, g: Seq<FixedSizeField>) -> bool { k.fixed_field_index < g.len() && g[k.fixed_field_index as int].path.0@ == k.path.0@ }
pub open spec fn has_i(e: Seq<Index>, x: Pos) -> bool { exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).path.0@ == x }
pub open spec fn descending(e: Seq<Index>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> lt((#[trigger] e[j]).path.0@, (#[trigger] e[i]).path.0@) }
pub open spec fn al_ok(a: int) -> bool { a == 1 || a == 2 || a == 4 || a == 8 || a == 16 }
pub open spec fn lay_ok(l: Layout, t: Type, p: Pos) -> bool decreases l {
  &&& place_ok(l.fixed_size_fields@, l.var_field_offset as int)
  &&& forall|i: int| 0 <= i < l.fixed_size_fields@.len() ==> fok(#[trigger] l.fixed_size_fields@[i], t, p)
  &&& forall|i: int| 0 <= i < l.field_indices@.len() ==> iok(#[trigger] l.field_indices@[i], l.fixed_size_fields@, l.var_size_fields@, t, p)
  &&& forall|x: Pos| #[trigger] leafp(t, p, x) ==> has_i(l.field_indices@, x)
  &&& descending(l.field_indices@)
  &&& forall|i: int| 0 <= i < l.var_size_fields@.len() ==> linked(#[trigger] l.var_size_fields@[i], l.fixed_size_fields@)
  &&& forall|i: int| 0 <= i < l.var_size_fields@.len() ==> vok(#[trigger] l.var_size_fields@[i], t, p)
  &&& al_ok(l.alignment as int) }
pub open spec fn vok(v: VariableSizeField, t: Type, p: Pos) -> bool decreases v {
  &&& leafp(t, p, v.path.0@)
  &&& match (v.kind, atp(t, p, v.path.0@).kind) { (VariableSizeFieldKind::String, Kind::String) => true,
     (VariableSizeFieldKind::Enum { cases }, Kind::Enum(c)) => cases@.len() == c@.len() && forall|i: int| 0 <= i < cases@.len() ==> lay_ok(#[trigger] cases@[i], *c@[i].typ, v.path.0@.push(i as usize)), _ => false } }
// tuples, structs and enums have at least one part
pub open spec fn proper(t: Type) -> bool decreases t, n_children(t) + 1 via proper_dec { ((inner(t) || t.kind is Enum) ==> n_children(t) > 0) && proper_n(t, n_children(t)) }
pub open spec fn proper_n(t: Type, n: nat) -> bool decreases t, n via proper_n_dec { n == 0 || n > n_children(t) || (proper_n(t, (n - 1) as nat) && proper(child(t, n - 1))) }
#[via_fn] proof fn proper_dec(t: Type) {}
#[via_fn] proof fn proper_n_dec(t: Type, n: nat) { if n == 0 || n > n_children(t) {} else { child_less(t, n - 1); } }
pub proof fn proper_child(t: Type, n: nat, i: int) requires proper_n(t, n), 0 <= i < n <= n_children(t) ensures proper(child(t, i)) decreases n { if i < n - 1 { proper_child(t, (n - 1) as nat, i); } }
pub open spec fn rel(p: Pos, x: Pos) -> Pos { x.skip(p.len() as int) }
// what belongs to a part belongs to the whole
pub proof fn leaf_lift(t: Type, p: Pos, i: int, x: Pos)
  requires inner(t), 0 <= i < n_children(t), i <= usize::MAX, leafp(child(t, i), p.push(i as usize), x)
  ensures leafp(t, p, x), atp(t, p, x) == atp(child(t, i), p.push(i as usize), x), rel(p, x).len() > 0, rel(p, x)[0] == i
{ let q = rel(p, x); let pi = p.push(i as usize); assert(x[p.len() as int] == pi[p.len() as int]); assert(q.skip(1) =~= rel(pi, x)); 
  assert forall|k: int| 0 <= k < p.len() implies #[trigger] p[k] == x[k] by { assert(pi[k] == x[k]); } assert(prefix(p, x)); }
pub proof fn leaf_lower(t: Type, p: Pos, x: Pos)
  requires inner(t), leafp(t, p, x)
  ensures rel(p, x).len() > 0, rel(p, x)[0] < n_children(t), ({ let i = rel(p, x)[0]; leafp(child(t, i as int), p.push(i), x) && atp(t, p, x) == atp(child(t, i as int), p.push(i), x) })
{ let q = rel(p, x); let i = q[0]; let pi = p.push(i); assert(q.skip(1) =~= rel(pi, x)); 
  assert forall|k: int| 0 <= k < pi.len() implies #[trigger] pi[k] == x[k] by { if k < p.len() { assert(p[k] == x[k]); } } assert(prefix(pi, x)); }
pub open spec fn splits(v: Seq<Index>, i: int, x: Pos) -> bool { 0 <= i <= v.len() && (forall|j: int| 0 <= j < i ==> lt(x, (#[trigger] v[j]).path.0@)) && (forall|j: int| i <= j < v.len() ==> lt((#[trigger] v[j]).path.0@, x)) }
#[verifier::external_body]
pub fn vfind(v: &Vec<Index>, path: &Path) -> (r: Result<usize, usize>) requires descending(v@)
  ensures match r { Ok(i) => i < v@.len() && v@[i as int].path.0@ == path.0@, Err(i) => splits(v@, i as int, path.0@) } { panic!() }

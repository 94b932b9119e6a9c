// Types of the SQL front end (types.rs, symbols.rs, ast/typing.rs), and the stand-ins shared by the units
#[derive(Debug)]
pub struct Error { pub m: u8 }
#[verifier::external_body]
pub fn verr() -> (r: Error) { panic!() }
pub fn vok<T>(x: T) -> (r: Result<T, Error>) ensures r == Ok::<T, Error>(x) { Ok(x) }
pub fn vbor(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { if a { true } else { b } }
pub fn vband(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { if a { b } else { false } }
pub fn vbxor(a: bool, b: bool) -> (r: bool) ensures r == (a != b) { a != b }
pub trait VCloned<T> { fn vcloned(self) -> Option<T>; }
== rewrite ty
types::DataType
=>
DataType
== rewrite ty
symbols::Name
=>
Name
== rewrite ty
Error::from($$x)
=>
verr()
== rewrite ty
.ok_or_else(|| { verr() })
=>
.ok_or(verr())
== rewrite ty
.ok_or_else(|| verr())
=>
.ok_or(verr())
== rewrite ty
.map(|t| t.clone())
=>
.vcloned()
== type dt DataType #[derive(Copy,Clone)]
== type ty ScalarType
== text
impl PartialEq for DataType { #[verifier::external_body] fn eq(&self, o: &DataType) -> (r: bool) ensures r == (*self == *o) { panic!() } }
impl Eq for DataType {}
// the derived Clone
impl Clone for ScalarType { #[verifier::external_body] fn clone(&self) -> (r: ScalarType) ensures tv(r) == tv(*self) { panic!() } }
impl<'a> VCloned<ScalarType> for Option<&'a ScalarType> { #[verifier::external_body] fn vcloned(self) -> (r: Option<ScalarType>) ensures match self { Some(x) => r is Some && tv(r->0) == tv(*x), None => r is None } { panic!() } }
// ---- the meaning of a type
pub enum ST { S(DataType, bool), T(Seq<ST>) }
pub open spec fn tv(s: ScalarType) -> ST decreases s via tv_dec { match s { ScalarType::Scalar { typ, is_null } => ST::S(typ, is_null), ScalarType::Tuple(v) => ST::T(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { tv(v@[i]) } else { arbitrary() })) } }
#[via_fn] proof fn tv_dec(s: ScalarType) { match s { ScalarType::Tuple(v) => { assert forall|i: int| 0 <= i < v@.len() implies decreases_to!(v@ => v@[i]) by {} }, _ => {} } }
pub proof fn elem_less(s: ScalarType, i: int) requires s is Tuple, 0 <= i < s->Tuple_0@.len() ensures decreases_to!(s => s->Tuple_0@[i])
{ match s { ScalarType::Tuple(v) => { assert(decreases_to!(v@ => v@[i])); }, _ => {} } }
// may it be null?
pub open spec fn nullable(s: ST) -> bool decreases s { match s { ST::S(_, n) => n, ST::T(v) => exists|i: int| 0 <= i < v.len() && nullable(#[trigger] v[i]) } }
// the combination of two types, if they are compatible
pub open spec fn join(a: ST, b: ST) -> Option<ST> decreases a { match (a, b) {
  (ST::S(k, m), ST::S(l, n)) => if k == l { Some(ST::S(k, m || n)) } else { None },
  (ST::T(v), ST::T(w)) => if v.len() == w.len() && (forall|i: int| 0 <= i < v.len() ==> join(#[trigger] v[i], w[i]) is Some) { Some(ST::T(Seq::new(v.len(), |i: int| if 0 <= i < v.len() { join(v[i], w[i])->0 } else { arbitrary() }))) } else { None },
  _ => None } }
pub proof fn join_sym(a: ST, b: ST) ensures join(a, b) == join(b, a) decreases a
{ match (a, b) { (ST::T(v), ST::T(w)) => { if v.len() == w.len() { assert forall|i: int| 0 <= i < v.len() implies join(v[i], w[i]) == join(w[i], v[i]) by { join_sym(v[i], w[i]); }
   if join(a, b) is Some { assert forall|i: int| 0 <= i < v.len() implies join(#[trigger] w[i], v[i]) is Some by { assert(join(v[i], w[i]) is Some); } assert(join(a, b)->0->T_0 =~= join(b, a)->0->T_0); }
   if join(b, a) is Some { assert forall|i: int| 0 <= i < v.len() implies join(#[trigger] v[i], w[i]) is Some by { assert(join(w[i], v[i]) is Some); } } } }, _ => {} } }
pub proof fn join_null(a: ST, b: ST) requires join(a, b) is Some ensures nullable(join(a, b)->0) == (nullable(a) || nullable(b)) decreases a
{ match (a, b) { (ST::T(v), ST::T(w)) => { let j = join(a, b)->0->T_0; assert(j.len() == v.len());
   assert forall|i: int| 0 <= i < v.len() implies nullable(#[trigger] j[i]) == (nullable(v[i]) || nullable(w[i])) by { assert(join(v[i], w[i]) is Some); join_null(v[i], w[i]); }
   if nullable(a) { let i = choose|i: int| 0 <= i < v.len() && nullable(#[trigger] v[i]); assert(nullable(j[i])); }
   if nullable(b) { let i = choose|i: int| 0 <= i < w.len() && nullable(#[trigger] w[i]); assert(nullable(j[i])); }
   if nullable(ST::T(j)) { let i = choose|i: int| 0 <= i < j.len() && nullable(#[trigger] j[i]); assert(nullable(v[i]) || nullable(w[i])); } }, _ => {} } }
// combining keeps the shape: a combination joins again with either side to itself
pub proof fn join_keeps(a: ST, b: ST) requires join(a, b) is Some ensures join(a, join(a, b)->0) == join(a, b) decreases a
{ match (a, b) { (ST::T(v), ST::T(w)) => { let j = join(a, b)->0->T_0;
   assert forall|i: int| 0 <= i < v.len() implies join(#[trigger] v[i], j[i]) == Some(j[i]) by { assert(join(v[i], w[i]) is Some); join_keeps(v[i], w[i]); }
   assert(join(a, ST::T(j)) is Some); assert(join(a, ST::T(j))->0->T_0 =~= j); }, _ => {} } }

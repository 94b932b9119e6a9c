// Names and maps keyed by names.  std::collections::BTreeMap<Name, _> is a map over the upper-case forms,
// because the order of names is a total order that agrees with equality of those (P17).  Trusted.
pub type Key = Seq<char>;
#[verifier::external_body]
#[derive(Debug)]
pub struct Name { m: u8 }
pub uninterp spec fn nk(n: Name) -> Key;
impl Clone for Name { #[verifier::external_body] fn clone(&self) -> (r: Name) ensures nk(r) == nk(*self) { panic!() } }
impl PartialEqSpecImpl for Name { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Name) -> bool { nk(*self) == nk(*o) } }
impl PartialEq for Name { #[verifier::external_body] fn eq(&self, o: &Name) -> (r: bool) { panic!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct NameMap<V> { m: Vec<V> }
impl<V> vstd::view::View for NameMap<V> { type V = Map<Key, V>; uninterp spec fn view(&self) -> Map<Key, V>; }
impl<V> NameMap<V> {
#[verifier::external_body]
pub fn new() -> (r: Self) ensures r@ == Map::<Key, V>::empty() { panic!() }
#[verifier::external_body]
pub fn insert(&mut self, k: Name, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(nk(k), v), (r is Some) == old(self)@.contains_key(nk(k)) { panic!() }
#[verifier::external_body]
pub fn get(&self, k: &Name) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(nk(*k)) && *v == self@[nk(*k)], None => !self@.contains_key(nk(*k)) } { panic!() }
#[verifier::external_body]
pub fn contains_key(&self, k: &Name) -> (r: bool) ensures r == self@.contains_key(nk(*k)) { panic!() }
#[verifier::external_body]
pub fn remove(&mut self, k: &Name) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(nk(*k)) { panic!() }
// the pairs of `for (k, v) in &map`, in some order
#[verifier::external_body]
pub fn ventries<'a>(&'a self) -> (r: Vec<(&'a Name, &'a V)>) ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(nk(*(#[trigger] r@[i]).0)) && self@[nk(*r@[i].0)] == *r@[i].1,
  forall|k: Key| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && nk(*(#[trigger] r@[i]).0) == k { panic!() }
}
pub fn vdrop<T>(x: T) {}
// an explicit iterator over a vector
pub struct VIter<'a, T> { pub v: &'a Vec<T>, pub i: usize }
pub fn viter<'a, T>(v: &'a Vec<T>) -> (r: VIter<'a, T>) ensures r.v == v, r.i == 0 { VIter { v: v, i: 0 } }
impl<'a, T> VIter<'a, T> {
pub fn next(&mut self) -> (r: Option<&'a T>) requires old(self).i <= old(self).v@.len()
  ensures final(self).v == old(self).v, match r { Some(x) => old(self).i < old(self).v@.len() && *x == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1, None => old(self).i == old(self).v@.len() && final(self).i == old(self).i }
{ if self.i < self.v.len() { let v = self.v; let k = self.i; self.i = k + 1; Some(&v[k]) } else { None } }
pub fn vmore(&self) -> (r: bool) ensures r == (self.i < self.v@.len()) { self.i < self.v.len() }
pub fn vget(&mut self) -> (r: &'a T) requires old(self).i < old(self).v@.len() ensures final(self).v == old(self).v, *r == old(self).v@[old(self).i as int], final(self).i == old(self).i + 1
{ let v = self.v; let k = self.i; let n = v.len(); self.i = k + 1; &v[k] }
}
== rewrite ty
collections::BTreeMap<Name, $$x>
=>
NameMap<$$x>
== rewrite ty
collections::BTreeMap::new()
=>
NameMap::new()
== rewrite ty
mem::drop
=>
vdrop
== rewrite ty
let mut $idx = $y.iter();
=>
let mut $idx = viter($y);
== rewrite ty
vec![$x]
=>
vone($x)
== rewrite ty
vec![$x,]
=>
vone($x)
== rewrite as
symbols::Name
=>
Name
== rewrite ty
Name::from($litx)
=>
vname($litx)
== rewrite ty
Name::from(format!("_col{}", $x))
=>
vcol_name($x)
== rewrite ty
Name::from(format!("{}{}", $x, $y))
=>
vnumbered($x, $y)
== rewrite ty
Name::from(format!($$x))
=>
vany_name()
== text
pub uninterp spec fn lit_key(s: Seq<char>) -> Key;
// "_col" and a number; a name and a number
pub uninterp spec fn col_key(n: int) -> Key;
pub uninterp spec fn num_key(k: Key, n: int) -> Key;
pub trait VNum { spec fn num(self) -> int; }
impl VNum for i32 { open spec fn num(self) -> int { self as int } }
impl VNum for u32 { open spec fn num(self) -> int { self as int } }
impl VNum for usize { open spec fn num(self) -> int { self as int } }
#[verifier::external_body]
pub fn vname(s: &str) -> (r: Name) ensures nk(r) == lit_key(s@) { panic!() }
#[verifier::external_body]
pub fn vcol_name<T: VNum>(n: T) -> (r: Name) ensures nk(r) == col_key(n.num()) { panic!() }
#[verifier::external_body]
pub fn vnumbered<T: VNum>(s: &Name, n: T) -> (r: Name) ensures nk(r) == num_key(nk(*s), n.num()) { panic!() }
// some name, whatever its spelling
#[verifier::external_body]
pub fn vany_name() -> (r: Name) { panic!() }
pub fn vone<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); v }

// std::collections::BTreeMap keyed by Path: a map over positions, because the order of paths is a total
// order consistent with equality of positions (P10).  Trusted.
#[verifier::external_body]
pub struct VMap { m: u8 }
impl View for VMap { type V = Map<Pos, Value>; uninterp spec fn view(&self) -> Map<Pos, Value>; }
impl VMap {
#[verifier::external_body]
pub fn new() -> (r: VMap) ensures r@ == Map::<Pos, Value>::empty() { panic!() }
#[verifier::external_body]
pub fn insert(&mut self, k: Path, v: Value) -> (r: Option<Value>) ensures final(self)@ == old(self)@.insert(k.0@, v) { panic!() }
#[verifier::external_body]
pub fn get(&self, k: &Path) -> (r: Option<&Value>) ensures match r { Some(v) => self@.contains_key(k.0@) && *v == self@[k.0@], None => !self@.contains_key(k.0@) } { panic!() }
#[verifier::external_body]
pub fn contains_key(&self, k: &Path) -> (r: bool) ensures r == self@.contains_key(k.0@) { panic!() }
#[verifier::external_body]
pub fn remove(&mut self, k: &Path) -> (r: Option<Value>) ensures final(self)@ == old(self)@.remove(k.0@) { panic!() }
#[verifier::external_body]
pub fn len(&self) -> (r: usize) ensures r == self@.len() { panic!() }
#[verifier::external_body]
pub fn is_empty(&self) -> (r: bool) ensures r <==> self@ == Map::<Pos, Value>::empty() { panic!() }
#[verifier::external_body]
pub fn clear(&mut self) ensures final(self)@ == Map::<Pos, Value>::empty() { panic!() }
}
== rewrite ds
collections::BTreeMap<Path, value::Value>
=>
VMap
== rewrite ds
collections::BTreeMap::new()
=>
VMap::new()
== rewrite ds
value::Value
=>
Value
== rewrite ds
value::PrimitiveValue
=>
PrimitiveValue
== type ds IntermediateDataSource

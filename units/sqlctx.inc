// Contexts: what names stand for
== rewrite ty
qualified_name.as_ref()
=>
qualified_name.as_slice()
== type ty Attribute
== type as OrderingDirection
== type ty RowType
== type ty ObjectTypes
== type ty Namespaces
== type ty SetContext
== type ty ScalarContextSymbol
== type ty ScalarContext
== text
impl Clone for Attribute { fn clone(&self) -> (r: Attribute) ensures nk(r.name) == nk(self.name), r.typ == self.typ, r.is_null == self.is_null { Attribute { name: self.name.clone(), typ: self.typ, is_null: self.is_null } } }
pub struct Col { pub name: Key, pub typ: DataType, pub is_null: bool }
pub open spec fn col(a: Attribute) -> Col { Col { name: nk(a.name), typ: a.typ, is_null: a.is_null } }
pub open spec fn cols(v: Seq<Attribute>) -> Seq<Col> { v.map_values(|a: Attribute| col(a)) }
// the first column of that name
pub open spec fn first_named(s: Seq<Col>, k: Key) -> Option<Col> decreases s.len() { if s.len() == 0 { None } else if s[0].name == k { Some(s[0]) } else { first_named(s.skip(1), k) } }
pub proof fn first_step(v: Seq<Attribute>, i: int, k: Key) requires 0 <= i < v.len() ensures first_named(cols(v.skip(i)), k) == (if nk(v[i].name) == k { Some(col(v[i])) } else { first_named(cols(v.skip(i + 1)), k) })
{ let s = cols(v.skip(i)); assert(s[0] == col(v[i])); assert(s.skip(1) =~= cols(v.skip(i + 1))); }
pub open spec fn table_row(c: SetContext, q: Seq<Name>) -> Option<RowType> {
  if q.len() == 1 {
    if c.table_expression@.contains_key(nk(q[0])) { Some(c.table_expression@[nk(q[0])]) }
    else if c.namespaces.0@.contains_key(nk(c.default_namespace)) && c.namespaces.0@[nk(c.default_namespace)].0@.contains_key(nk(q[0])) { Some(c.namespaces.0@[nk(c.default_namespace)].0@[nk(q[0])]) }
    else { None }
  } else if q.len() == 2 {
    if c.table_expression@.contains_key(nk(q[0])) { None }
    else if c.namespaces.0@.contains_key(nk(q[0])) && c.namespaces.0@[nk(q[0])].0@.contains_key(nk(q[1])) { Some(c.namespaces.0@[nk(q[0])].0@[nk(q[1])]) }
    else { None }
  } else { None } }
pub open spec fn sym_lookup(m: Map<Key, ScalarContextSymbol>, q: Seq<Name>) -> Option<ST> {
  if q.len() == 1 { if m.contains_key(nk(q[0])) { match m[nk(q[0])] { ScalarContextSymbol::Attribute(t) => Some(tv(t)), _ => None } } else { None } }
  else if q.len() == 2 { if m.contains_key(nk(q[0])) { match m[nk(q[0])] { ScalarContextSymbol::Relation(a) => match first_named(cols(a@), nk(q[1])) { Some(c) => Some(ST::S(c.typ, c.is_null)), None => None }, _ => None } } else { None } }
  else { None } }
// the derived Clone
impl Clone for RowType { #[verifier::external_body] fn clone(&self) -> (r: RowType) ensures cols(r.attributes@) == cols(self.attributes@) { panic!() } }

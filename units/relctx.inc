== text
// ---- what an identifier means, given the relations in scope
pub enum Found { Nothing, One(Col), Many }
pub open spec fn occ(s: Seq<Col>, k: Key) -> Found decreases s.len() { if s.len() == 0 { Found::Nothing } else { match occ(s.drop_last(), k) {
  Found::Nothing => if s.last().name == k { Found::One(s.last()) } else { Found::Nothing }, Found::One(c) => if s.last().name == k { Found::Many } else { Found::One(c) }, Found::Many => Found::Many } } }
// the last column of that name of one relation
pub open spec fn last_named(s: Seq<Col>, k: Key) -> Option<Col> decreases s.len() { if s.len() == 0 { None } else if s.last().name == k { Some(s.last()) } else { last_named(s.drop_last(), k) } }
pub open spec fn cst(c: Col) -> ST { ST::S(c.typ, c.is_null) }
// `all`: the columns of all relations in scope; `rels`: those of each
pub open spec fn meaning(all: Seq<Col>, rels: Map<Key, Seq<Col>>, q: Seq<Name>) -> Option<ST> {
  if q.len() == 1 { if rels.contains_key(nk(q[0])) { None } else { match occ(all, nk(q[0])) { Found::One(c) => Some(cst(c)), _ => None } } }
  else if q.len() == 2 { if rels.contains_key(nk(q[0])) { match first_named(rels[nk(q[0])], nk(q[1])) { Some(c) => Some(cst(c)), None => None } } else { None } }
  else { None } }
pub open spec fn sym_is(m: Map<Key, ScalarContextSymbol>, all: Seq<Col>, rels: Map<Key, Seq<Col>>, k: Key) -> bool {
  if rels.contains_key(k) { m.contains_key(k) && (m[k] matches ScalarContextSymbol::Relation(a) && cols(a@) == rels[k]) }
  else { match occ(all, k) { Found::Nothing => !m.contains_key(k), Found::One(c) => m.contains_key(k) && (m[k] matches ScalarContextSymbol::Attribute(t) && tv(t) == cst(c)), Found::Many => m.contains_key(k) && m[k] is AttributeConflict } } }
pub open spec fn ctx_is(m: Map<Key, ScalarContextSymbol>, all: Seq<Col>, rels: Map<Key, Seq<Col>>) -> bool { forall|k: Key| #![trigger m.contains_key(k)] #![trigger rels.contains_key(k)] sym_is(m, all, rels, k) }
// looking a name up finds what it means
pub proof fn lookup_meaning(m: Map<Key, ScalarContextSymbol>, all: Seq<Col>, rels: Map<Key, Seq<Col>>, q: Seq<Name>) requires ctx_is(m, all, rels) ensures sym_lookup(m, q) == meaning(all, rels, q)
{ if q.len() > 0 { assert(sym_is(m, all, rels, nk(q[0]))) by { let _ = m.contains_key(nk(q[0])); } } }
pub proof fn occ_push(s: Seq<Col>, c: Col, k: Key) ensures occ(s.push(c), k) == (match occ(s, k) { Found::Nothing => if c.name == k { Found::One(c) } else { Found::Nothing }, Found::One(d) => if c.name == k { Found::Many } else { Found::One(d) }, Found::Many => Found::Many }),
  last_named(s.push(c), k) == (if c.name == k { Some(c) } else { last_named(s, k) })
{ assert(s.push(c).drop_last() =~= s); }

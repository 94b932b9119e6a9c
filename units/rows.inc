// Rows of VALUES and of set operations; conditions.  The including unit declares query_cols.
== type as SelectMode
== type as SetOperator
== type as GroupBy
== type as SetExpression
== text
// ---- rows: VALUES and set operations, column by column
pub open spec fn ast(a: Attribute) -> ST { ST::S(a.typ, a.is_null) }
pub open spec fn asts(v: Seq<Attribute>) -> Seq<ST> { v.map_values(|a: Attribute| ast(a)) }
// where no relation is in scope
pub open spec fn top(s: SetContext) -> Scope { Scope { look: |q: Seq<Name>| None, s: s } }
pub open spec fn all_scalar(t: Seq<Option<ST>>) -> bool { forall|i: int| 0 <= i < t.len() ==> scalar(#[trigger] t[i]) }
pub open spec fn joins(a: Seq<ST>, t: Seq<Option<ST>>, i: int) -> bool { t[i] is Some && join(a[i], t[i]->0) is Some }
pub open spec fn row_join(a: Seq<ST>, t: Seq<Option<ST>>) -> Option<Seq<ST>> { if a.len() == t.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] joins(a, t, i)) { Some(Seq::new(a.len(), |i: int| join(a[i], t[i]->0)->0)) } else { None } }
pub open spec fn some_of(a: Seq<ST>) -> Seq<Option<ST>> { a.map_values(|t: ST| Some(t)) }
// the rows of VALUES, combined column by column
pub open spec fn rows_type(rows: Seq<Vec<Box<Expression>>>, n: nat, c: Scope) -> Option<Seq<ST>> decreases n { if n == 0 || n > rows.len() { None }
  else if n == 1 { if all_scalar(types_of(rows[0]@, c)) { Some(types_of(rows[0]@, c).map_values(|t: Option<ST>| t->0)) } else { None } }
  else { match rows_type(rows, (n - 1) as nat, c) { Some(a) => row_join(a, types_of(rows[n - 1]@, c)), None => None } } }
// a column name of VALUES
pub open spec fn auto_names(n: nat) -> Seq<Key> { Seq::new(n, |i: int| col_key(i)) }
pub open spec fn named(ks: Seq<Key>, ts: Seq<ST>) -> Seq<Col> { Seq::new(ts.len(), |i: int| Col { name: ks[i], typ: ts[i]->S_0, is_null: ts[i]->S_1 }) }
pub open spec fn knames(s: Seq<Col>) -> Seq<Key> { s.map_values(|c: Col| c.name) }
// all column names differ
pub open spec fn distinct(s: Seq<Col>) -> bool { knames(s).no_duplicates() }
pub open spec fn ktypes(s: Seq<Col>) -> Seq<ST> { s.map_values(|c: Col| ST::S(c.typ, c.is_null)) }
// the columns of a set expression; None if it is refused
pub open spec fn set_cols(e: SetExpression, s: SetContext) -> Option<Seq<Col>> decreases e { match e {
  SetExpression::Values(rows) => match rows_type(rows@, rows@.len(), top(s)) { Some(t) => Some(named(auto_names(t.len()), t)), None => None },
  SetExpression::Op { op, left, right } => match (set_cols(*left, s), set_cols(*right, s)) { (Some(a), Some(b)) => match row_join(ktypes(a), some_of(ktypes(b))) { Some(t) => Some(named(knames(a), t)), None => None }, _ => None },
  _ => query_cols(e, s) } }
// names of columns
pub open spec fn names_are(z: Seq<Attribute>, ks: Seq<Key>) -> bool { z.len() <= ks.len() && forall|j: int| 0 <= j < z.len() ==> nk((#[trigger] z[j]).name) == ks[j] }
pub open spec fn zk(v: Seq<Attribute>) -> Seq<Key> { knames(cols(v)) }
pub proof fn names_step(z: Seq<Attribute>, ks: Seq<Key>, x: Attribute) requires names_are(z, ks), z.len() < ks.len(), nk(x.name) == ks[z.len() as int] ensures names_are(z.push(x), ks) { let y = z.push(x); assert forall|j: int| 0 <= j < y.len() implies nk((#[trigger] y[j]).name) == ks[j] by { if j < z.len() { assert(y[j] == z[j]); } } }
pub proof fn named_done(z: Seq<Attribute>, ks: Seq<Key>) requires names_are(z, ks), z.len() == ks.len() ensures named(ks, asts(z)) == cols(z), zk(z) == ks { assert(named(ks, asts(z)) =~= cols(z)); assert(zk(z) =~= ks); }
pub proof fn col_types(v: Seq<Attribute>) ensures ktypes(cols(v)) == asts(v), zk(v).len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] zk(v)[i]) == nk(v[i].name) { assert(ktypes(cols(v)) =~= asts(v)); }
pub proof fn top_scope(c: ScalarContext, s: SetContext) requires *c.set_context == s, ctx_is(c.symbols@, seq![], map![]) ensures sc(c) == top(s)
{ assert forall|q: Seq<Name>| #[trigger] (sc(c).look)(q) == (top(s).look)(q) by { lookup_meaning(c.symbols@, seq![], map![], q); }
  assert(sc(c).look =~= top(s).look); }
pub proof fn first_done(t: Seq<Option<ST>>, z: Seq<Attribute>) requires z.len() == t.len(), forall|j: int| 0 <= j < t.len() ==> (#[trigger] t[j]) == Some(ast(z[j])) ensures all_scalar(t), t.map_values(|x: Option<ST>| x->0) == asts(z)
{ assert(t.map_values(|x: Option<ST>| x->0) =~= asts(z)); }
// the first n columns of a combination of rows
pub open spec fn joined(a: Seq<ST>, t: Seq<Option<ST>>, z: Seq<Attribute>, n: int) -> bool { 0 <= n <= a.len() && n <= t.len() && z.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] joins(a, t, j)) && join(a[j], t[j]->0) == Some(ast(z[j])) }
pub open spec fn unjoined(a: Seq<ST>, t: Seq<Option<ST>>, n: int) -> bool { exists|j: int| 0 <= j < n && !#[trigger] joins(a, t, j) }
pub proof fn join_start(a: Seq<ST>, t: Seq<Option<ST>>) ensures forall|z: Seq<Attribute>| z.len() == 0 ==> #[trigger] joined(a, t, z, 0) {}
pub proof fn joined_step(a: Seq<ST>, t: Seq<Option<ST>>, f: Result<Vec<Attribute>, Error>, n: int) requires 0 <= n < a.len(), n < t.len(), match f { Ok(v) => joined(a, t, v@, n), Err(_) => unjoined(a, t, n) }
 ensures f is Ok ==> f->Ok_0@.len() == n, joins(a, t, n) == (t[n] is Some && join(a[n], t[n]->0) is Some), !joins(a, t, n) ==> unjoined(a, t, n + 1), f is Err ==> unjoined(a, t, n + 1),
  f is Ok ==> forall|x: Attribute| #![trigger f->Ok_0@.push(x)] joins(a, t, n) && join(a[n], t[n]->0) == Some(ast(x)) ==> joined(a, t, f->Ok_0@.push(x), n + 1)
{ if f is Err { let j = choose|j: int| 0 <= j < n && !#[trigger] joins(a, t, j); assert(!joins(a, t, j)); } 
  else { assert forall|x: Attribute| #![trigger f->Ok_0@.push(x)] joins(a, t, n) && join(a[n], t[n]->0) == Some(ast(x)) implies joined(a, t, f->Ok_0@.push(x), n + 1) by {
   let z = f->Ok_0@; assert forall|j: int| 0 <= j < n + 1 implies (#[trigger] joins(a, t, j)) && join(a[j], t[j]->0) == Some(ast(z.push(x)[j])) by { if j < n { assert(z.push(x)[j] == z[j]); } } } } }
pub proof fn row_done(a: Seq<ST>, t: Seq<Option<ST>>, f: Result<Vec<Attribute>, Error>) requires a.len() == t.len(), match f { Ok(v) => joined(a, t, v@, a.len() as int), Err(_) => unjoined(a, t, a.len() as int) }
 ensures f is Ok ==> f->Ok_0@.len() == a.len(), row_join(a, t) == (match f { Ok(v) => Some(asts(v@)), Err(_) => None })
{ if f is Ok { let z = f->Ok_0@; assert forall|j: int| 0 <= j < a.len() implies #[trigger] joins(a, t, j) by {}
   assert(row_join(a, t) is Some); assert(row_join(a, t)->0 =~= asts(z)) by { assert forall|j: int| 0 <= j < z.len() implies row_join(a, t)->0[j] == asts(z)[j] by { assert(joins(a, t, j)); } } } }
pub proof fn ast_at(v: Seq<Attribute>, i: int) requires 0 <= i < v.len() ensures asts(v)[i] == ST::S(v[i].typ, v[i].is_null), asts(v).len() == v.len(), some_of(asts(v))[i] == Some(ST::S(v[i].typ, v[i].is_null)), some_of(asts(v)).len() == v.len() {}
pub proof fn row_lens() ensures forall|a: Seq<ST>, t: Seq<Option<ST>>| #![trigger row_join(a, t)] a.len() != t.len() ==> row_join(a, t) is None {}
pub proof fn ast_len(v: Seq<Attribute>) ensures asts(v).len() == v.len(), some_of(asts(v)).len() == v.len() {}
pub open spec fn is_condition(t: Option<ST>) -> bool { t matches Some(ST::S(DataType::Logical, _)) }
pub open spec fn condition_ok(w: Option<Box<Expression>>, c: Scope) -> bool { match w { Some(e) => is_condition(etype(*e, c)), None => true } }

// SetExpression::infer_type.   Variant `query` (unit select) covers all of it, the other all but SELECT
== fn ty SetExpression::infer_type folds boolops refpats #[verifier::spinoff_prover] #[verifier::rlimit(40)]
 ensures match r { Ok(t) => set_cols(*self, *context) == Some(cols(t.attributes@)), Err(_) => set_cols(*self, *context) is None },
  r is Ok ==> distinct(cols(r->Ok_0.attributes@))
 decreases *self
-- entry
 hide(tv); hide(nullable); hide(join); hide(etype); hide(types_of); hide(joined); hide(unjoined); hide(row_join); hide(distinct); hide(auto_named); hide(named_like); hide(knames); hide(ktypes); hide(named); hide(cols); hide(asts); hide(some_of);
 let ghost c = top(*context);
 proof { scalars(); row_lens(); few_values(*self); all_lens(); }
@prove: proof { assume(!(*self is Query)); }
@query: let ghost s = *context; proof { scopes_in(s); }
-- loop 0 it0
 invariant c == sc(scalar_context), rows@.len() > 0, rows@[0]@.len() <= i32::MAX,
  match vx_f0 { Ok(v) => v.1 == it0.index@ && v.0@.len() == it0.index@ && auto_named(v.0@) && forall|j: int| 0 <= j < it0.index@ ==> (#[trigger] types_of(rows@[0]@, c)[j]) == Some(ast(v.0@[j])), Err(_) => exists|j: int| 0 <= j < it0.index@ && !scalar(#[trigger] types_of(rows@[0]@, c)[j]) }
-- body 0
 proof { scalars(); elem_at(rows@[0]@, c, it0.index@ as int); if vx_f0 is Ok { auto_step(vx_f0->Ok_0.0@); } }
-- before 0
 proof { like_none(Seq::<Attribute>::empty()); top_scope(scalar_context, *context); }
-- after 0
 proof { types_len(rows@[0]@, c); if vx_f0 is Ok { first_done(types_of(rows@[0]@, c), vx_f0->Ok_0.0@); } else { assert(rows_type(rows@, 1, c) is None); rows_none(rows@, 1, rows@.len(), c); } }
-- loop 1 it1
 invariant c == sc(scalar_context), rows@.len() > 0,
  match vx_f1 { Ok(v) => auto_named(v@) && rows_type(rows@, (it1.index@ + 1) as nat, c) == Some(asts(v@)), Err(_) => rows_type(rows@, (it1.index@ + 1) as nat, c) is None }
-- body 1
 proof { types_len(rows@[it1.index@ as int + 1]@, c); row_lens(); if vx_f1 is Ok { ast_len(vx_f1->Ok_0@); } }
-- after 1
 proof { if vx_f1 is Ok { auto_done(vx_f1->Ok_0@); ast_len(vx_f1->Ok_0@); } }
-- before 2
 proof { like_none(types@); ast_len(types@); types_len(vals@, c); join_start(asts(types@), types_of(vals@, c)); }
-- loop 2
 invariant c == sc(scalar_context), vx_n2 == types@.len(), vx_n2 == vals@.len(), asts(types@).len() == types@.len(), types_of(vals@, c).len() == vals@.len(),
  match vx_f2 { Ok(v) => named_like(v@, types@) && joined(asts(types@), types_of(vals@, c), v@, vx_i2 as int), Err(_) => unjoined(asts(types@), types_of(vals@, c), vx_i2 as int) }
-- body 2
 proof { scalars(); elem_at(vals@, c, vx_i2 as int); ast_at(types@, vx_i2 as int); joined_step(asts(types@), types_of(vals@, c), vx_f2, vx_i2 as int); if vx_f2 is Ok { like_step(vx_f2->Ok_0@, types@); } }
-- after 2
 proof { row_done(asts(types@), types_of(vals@, c), vx_f2); if vx_f2 is Ok && auto_named(types@) { like_auto(vx_f2->Ok_0@, types@); } }
@query:-- before 3
@query: proof { no_cols(); }
-- loop 3 it3
@prove: invariant false
@query: invariant it3.seq().len() == from@.len(), forall|i: int| 0 <= i < it3.seq().len() ==> *(#[trigger] it3.seq()[i]) == from@[i], decreases_to!(*self => from@),
@query:  match vx_f3 { Ok(v) => *v.0.set_context == s && (from_in(from@, it3.index@ as nat, s) matches Some((x, a)) && ctx_in(v.0, x) && a == cols(v.1@)), Err(_) => from_in(from@, it3.index@ as nat, s) is None }
@query:-- body 3
@query: proof { let i = it3.index@ as int; assert(decreases_to!(from@ => from@[i])); adds(); }
-- loop 4 it4
@prove: invariant false
@query: invariant it4.seq().len() == groupings@.len(), forall|i: int| 0 <= i < it4.seq().len() ==> *(#[trigger] it4.seq()[i]) == groupings@[i], (group_by matches Some(g) && g.groupings == *groupings), *self == (SetExpression::Query { mode: self->mode, columns: *columns, from: *from, where_expr: *where_expr, group_by: *group_by }),
@query:  (from_in(from@, from@.len(), s) matches Some((x, a)) && sc(scalar_context) == scope_of(x, s)), s == *context,
@query:  forall|i: int| 0 <= i < it4.index@ ==> etype(*(#[trigger] groupings@[i]), sc(scalar_context)) is Some
-- before 5
 proof { like_none(left_type.attributes@); }
 let ghost la = asts(left_type.attributes@); let ghost ra = some_of(asts(right_type.attributes@));
 proof { ast_len(left_type.attributes@); ast_len(right_type.attributes@); join_start(la, ra); }
-- loop 5
 invariant vx_n5 == left_type.attributes@.len(), vx_n5 == right_type.attributes@.len(), la == asts(left_type.attributes@), ra == some_of(asts(right_type.attributes@)), la.len() == vx_n5, ra.len() == vx_n5,
  match vx_f5 { Ok(v) => named_like(v@, left_type.attributes@) && joined(la, ra, v@, vx_i5 as int), Err(_) => unjoined(la, ra, vx_i5 as int) }
-- body 5
 proof { scalars(); ast_at(left_type.attributes@, vx_i5 as int); ast_at(right_type.attributes@, vx_i5 as int); joined_step(la, ra, vx_f5, vx_i5 as int); if vx_f5 is Ok { like_step(vx_f5->Ok_0@, left_type.attributes@); } }
-- after 5
 proof { row_done(la, ra, vx_f5); col_types(left_type.attributes@); col_types(right_type.attributes@); if vx_f5 is Ok { like_done(vx_f5->Ok_0@, left_type.attributes@); } }
== text
pub proof fn types_len(v: Seq<Box<Expression>>, c: Scope) ensures types_of(v, c).len() == v.len() {}
pub proof fn rows_none(rows: Seq<Vec<Box<Expression>>>, n: nat, m: nat, c: Scope) requires 0 < n <= m, rows_type(rows, n, c) is None ensures rows_type(rows, m, c) is None decreases m
{ if m > n { rows_none(rows, n, (m - 1) as nat, c); } }

// different numbers are written differently
pub axiom fn auto_differ() ensures forall|i: int, j: int| #![trigger col_key(i), col_key(j)] i != j ==> col_key(i) != col_key(j);
// no row of VALUES is longer than its column counter can count
pub axiom fn few_values(e: SetExpression) ensures match e { SetExpression::Values(rows) => rows@.len() > 0 ==> rows@[0]@.len() <= i32::MAX, _ => true };
pub open spec fn auto_named(z: Seq<Attribute>) -> bool { forall|j: int| 0 <= j < z.len() ==> nk((#[trigger] z[j]).name) == col_key(j) }
pub open spec fn named_like(z: Seq<Attribute>, y: Seq<Attribute>) -> bool { forall|j: int| 0 <= j < z.len() ==> nk((#[trigger] z[j]).name) == nk(y[j].name) }
pub proof fn like_none(y: Seq<Attribute>) ensures forall|z: Seq<Attribute>| #![trigger named_like(z, y)] #![trigger auto_named(z)] z.len() == 0 ==> named_like(z, y) && auto_named(z) {}
pub proof fn auto_step(z: Seq<Attribute>) requires auto_named(z) ensures forall|x: Attribute| #![trigger z.push(x)] nk(x.name) == col_key(z.len() as int) ==> auto_named(z.push(x))
{ assert forall|x: Attribute| #![trigger z.push(x)] nk(x.name) == col_key(z.len() as int) implies auto_named(z.push(x)) by { let y = z.push(x); assert forall|j: int| 0 <= j < y.len() implies nk((#[trigger] y[j]).name) == col_key(j) by { if j < z.len() { assert(y[j] == z[j]); } } } }
pub proof fn like_step(z: Seq<Attribute>, w: Seq<Attribute>) requires named_like(z, w) ensures forall|x: Attribute| #![trigger z.push(x)] nk(x.name) == nk(w[z.len() as int].name) ==> named_like(z.push(x), w)
{ assert forall|x: Attribute| #![trigger z.push(x)] nk(x.name) == nk(w[z.len() as int].name) implies named_like(z.push(x), w) by { let y = z.push(x); assert forall|j: int| 0 <= j < y.len() implies nk((#[trigger] y[j]).name) == nk(w[j].name) by { if j < z.len() { assert(y[j] == z[j]); } } } }
pub proof fn like_auto(z: Seq<Attribute>, y: Seq<Attribute>) requires named_like(z, y), z.len() <= y.len(), auto_named(y) ensures auto_named(z) {  assert forall|j: int| 0 <= j < z.len() implies nk((#[trigger] z[j]).name) == col_key(j) by { let _ = y[j]; } }
pub proof fn auto_done(z: Seq<Attribute>) requires auto_named(z) ensures named(auto_names(asts(z).len()), asts(z)) == cols(z), distinct(cols(z)) { auto_differ(); col_types(z); assert forall|i: int, j: int| 0 <= i < z.len() && 0 <= j < z.len() && i != j implies zk(z)[i] != zk(z)[j] by { assert(nk(z[i].name) == col_key(i) && nk(z[j].name) == col_key(j)); } named_done(z, auto_names(z.len())); }
pub proof fn like_done(z: Seq<Attribute>, y: Seq<Attribute>) requires named_like(z, y), z.len() == y.len() ensures named(knames(cols(y)), asts(z)) == cols(z), distinct(cols(y)) ==> distinct(cols(z)) { assert(names_are(z, zk(y))) by { col_types(y); } named_done(z, zk(y)); }
pub proof fn all_lens() ensures forall|v: Seq<Attribute>| #![trigger cols(v)] ktypes(cols(v)) == asts(v) && asts(v).len() == v.len() && some_of(asts(v)).len() == v.len() { assert forall|v: Seq<Attribute>| #![trigger cols(v)] ktypes(cols(v)) == asts(v) && asts(v).len() == v.len() && some_of(asts(v)).len() == v.len() by { col_types(v); } }

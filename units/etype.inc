// The type of an expression
== type as Literal
== type as UnaryOperator
== type as BinaryOperator
== type as ComparisonOperator
== type as SetSpecification
== type as WhenClause
== type as Expression
== text
// what names mean, and the tables
#[verifier::ext_equal]
pub ghost struct Scope { pub look: spec_fn(Seq<Name>) -> Option<ST>, pub s: SetContext }
pub open spec fn sc(c: ScalarContext) -> Scope { Scope { look: |q: Seq<Name>| sym_lookup(c.symbols@, q), s: *c.set_context } }
pub open spec fn is_ordered(t: DataType) -> bool { t is Varchar || t is Numeric || t is Date || t is Time || t is Timestamp }
pub open spec fn lit_type(l: Literal) -> ST { match l { Literal::StringLiteral(_) => ST::S(DataType::Varchar, false), Literal::NumericLiteral(_) => ST::S(DataType::Numeric, false), Literal::Null => ST::S(DataType::Generic, true),
  Literal::CurrentTime | Literal::TimeLiteral(_) => ST::S(DataType::Time, false), Literal::CurrentDate | Literal::DateLiteral(_) => ST::S(DataType::Date, false), Literal::CurrentTimestamp | Literal::TimestampLiteral(_) => ST::S(DataType::Timestamp, false) } }
// the columns of an embedded SELECT, if it has a type (unit select)
pub uninterp spec fn select_cols(s: SelectStatement, c: SetContext) -> Option<Seq<Col>>;
pub open spec fn one_col(c: Option<Seq<Col>>) -> Option<ST> { match c { Some(s) => if s.len() == 1 { Some(ST::S(s[0].typ, s[0].is_null)) } else { None }, None => None } }
pub open spec fn logical(n: bool) -> Option<ST> { Some(ST::S(DataType::Logical, n)) }
pub open spec fn unary_type(op: UnaryOperator, t: ST) -> Option<ST> { match (op, t) {
  (UnaryOperator::Negate, ST::S(DataType::Numeric, n)) => Some(t), (UnaryOperator::Not, ST::S(DataType::Logical, n)) => Some(t), (UnaryOperator::IsNull, ST::S(_, _)) => logical(false), _ => None } }
pub open spec fn operand(op: BinaryOperator) -> DataType { match op { BinaryOperator::Multiply | BinaryOperator::Divide | BinaryOperator::Add | BinaryOperator::Subtract => DataType::Numeric, BinaryOperator::Concat => DataType::Varchar, _ => DataType::Logical } }
pub open spec fn binary_type(op: BinaryOperator, a: ST, b: ST) -> Option<ST> { match (a, b) { (ST::S(k, m), ST::S(l, n)) => if k == operand(op) && l == operand(op) { Some(ST::S(operand(op), m || n)) } else { None }, _ => None } }
pub open spec fn compare_type(op: ComparisonOperator, a: ST, b: ST) -> Option<ST> { match op {
  ComparisonOperator::Equal | ComparisonOperator::NotEqual => match join(a, b) { Some(j) => logical(nullable(j)), None => None },
  ComparisonOperator::Like => match (a, b) { (ST::S(DataType::Varchar, m), ST::S(DataType::Varchar, n)) => logical(m || n), _ => None },
  _ => match (a, b) { (ST::S(k, m), ST::S(l, n)) => if k == l && is_ordered(k) { logical(m || n) } else { None }, _ => None } } }
pub open spec fn between_type(a: ST, b: ST, c: ST) -> Option<ST> { match (a, b, c) { (ST::S(k, m), ST::S(l, n), ST::S(p, q)) => if k == l && k == p && is_ordered(k) { logical(m || n || q) } else { None }, _ => None } }
// the combination of the first n of some types
pub open spec fn join_all(s: Seq<Option<ST>>, n: nat) -> Option<ST> decreases n
{ if n == 0 || n > s.len() { None } else if n == 1 { s[0] } else { match (join_all(s, (n - 1) as nat), s[n - 1]) { (Some(a), Some(b)) => join(a, b), _ => None } } }
pub open spec fn in_type(t: Option<ST>, set: Option<ST>) -> Option<ST> { match (t, set) { (Some(t), Some(u)) => match (u, join(t, u)) { (ST::S(_, _), Some(j)) => logical(nullable(j)), _ => None }, _ => None } }
pub open spec fn guards_ok(sw: Option<Option<ST>>, g: Seq<Option<ST>>, n: int) -> bool { match sw {
  None => forall|i: int| 0 <= i < n ==> (#[trigger] g[i]) matches Some(ST::S(DataType::Logical, _)),
  Some(t) => t is Some && forall|i: int| 0 <= i < n ==> (#[trigger] g[i]) is Some && join(g[i]->0, t->0) is Some } }
pub open spec fn case_type(sw: Option<Option<ST>>, g: Seq<Option<ST>>, b: Seq<Option<ST>>, e: Option<Option<ST>>) -> Option<ST> {
  if !guards_ok(sw, g, g.len() as int) { None } else { match join_all(b, b.len()) {
    Some(ST::S(k, n)) => match e { None => Some(ST::S(k, true)), Some(Some(t)) => join(ST::S(k, n), t), Some(None) => None }, _ => None } } }
pub open spec fn etype(e: Expression, c: Scope) -> Option<ST> decreases e, 0int via etype_dec {
  match e {
    Expression::Literal(l) => Some(lit_type(l)),
    Expression::QualifiedIdentifier(q) => (c.look)(q@),
    Expression::MakeTuple(v) => tuple_type(types_of(v@, c)),
    Expression::Select(s) => one_col(select_cols(s, c.s)),
    Expression::Unary { op, expr } => match etype(*expr, c) { Some(t) => unary_type(op, t), None => None },
    Expression::Binary { op, left, right } => match (etype(*left, c), etype(*right, c)) { (Some(a), Some(b)) => binary_type(op, a, b), _ => None },
    Expression::Comparison { op, left, right } => match (etype(*left, c), etype(*right, c)) { (Some(a), Some(b)) => compare_type(op, a, b), _ => None },
    Expression::In { expr, set } => in_type(etype(*expr, c), set_type(set, c)),
    Expression::Between { expr, lower, upper } => match (etype(*expr, c), etype(*lower, c), etype(*upper, c)) { (Some(x), Some(y), Some(z)) => between_type(x, y, z), _ => None },
    Expression::Case { expr, when_part, else_part } => case_type(match expr { Some(x) => Some(etype(*x, c)), None => None },
      guards_of(when_part@, c), bodies_of(when_part@, c), match else_part { Some(x) => Some(etype(*x, c)), None => None }),
  } }
pub open spec fn set_type(set: SetSpecification, c: Scope) -> Option<ST> decreases set, 0int via set_dec { match set {
  SetSpecification::Select(s) => one_col(select_cols(s, c.s)),
  SetSpecification::Name(q) => match table_row(c.s, q@) { Some(r) => one_col(Some(cols(r.attributes@))), None => None },
  SetSpecification::List(v) => scalar_only(join_all(types_of(v@, c), v@.len())) } }
pub open spec fn scalar_only(t: Option<ST>) -> Option<ST> { match t { Some(ST::S(_, _)) => t, _ => None } }
pub open spec fn types_of(v: Seq<Box<Expression>>, c: Scope) -> Seq<Option<ST>> decreases v, 0int via types_dec { Seq::new(v.len(), |i: int| if 0 <= i < v.len() { etype(*v[i], c) } else { None }) }
pub open spec fn guards_of(v: Seq<WhenClause>, c: Scope) -> Seq<Option<ST>> decreases v, 0int via when_dec { Seq::new(v.len(), |i: int| if 0 <= i < v.len() { etype(*v[i].guard, c) } else { None }) }
pub open spec fn bodies_of(v: Seq<WhenClause>, c: Scope) -> Seq<Option<ST>> decreases v, 0int via when_dec2 { Seq::new(v.len(), |i: int| if 0 <= i < v.len() { etype(*v[i].body, c) } else { None }) }
#[via_fn] proof fn types_dec(v: Seq<Box<Expression>>, c: Scope) { }
#[via_fn] proof fn when_dec(v: Seq<WhenClause>, c: Scope) { }
#[via_fn] proof fn when_dec2(v: Seq<WhenClause>, c: Scope) { }
#[via_fn] proof fn set_dec(set: SetSpecification, c: Scope) { }
#[via_fn] proof fn etype_dec(e: Expression, c: Scope) { }
pub open spec fn tuple_type(s: Seq<Option<ST>>) -> Option<ST> { if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some { Some(ST::T(s.map_values(|t: Option<ST>| t->0))) } else { None } }
pub proof fn expr_less(e: Expression, i: int)
 ensures match e { Expression::MakeTuple(v) => 0 <= i < v@.len() ==> decreases_to!(e => *v@[i]), Expression::In { expr, set } => match set { SetSpecification::List(v) => 0 <= i < v@.len() ==> decreases_to!(e => *v@[i]), _ => true },
   Expression::Case { expr, when_part, else_part } => 0 <= i < when_part@.len() ==> decreases_to!(e => *when_part@[i].guard) && decreases_to!(e => *when_part@[i].body), _ => true }
{ match e { Expression::MakeTuple(v) => { if 0 <= i < v@.len() { assert(decreases_to!(v@ => v@[i])); } }, Expression::In { expr, set } => { match set { SetSpecification::List(v) => { if 0 <= i < v@.len() { assert(decreases_to!(v@ => v@[i])); } }, _ => {} } },
  Expression::Case { expr, when_part, else_part } => { if 0 <= i < when_part@.len() { assert(decreases_to!(when_part@ => when_part@[i])); } }, _ => {} } }
pub open spec fn scalar(t: Option<ST>) -> bool { t matches Some(ST::S(_, _)) }
pub proof fn join_all_none(s: Seq<Option<ST>>, n: nat, m: nat) requires 0 < n <= m <= s.len(), !scalar(join_all(s, n)) ensures !scalar(join_all(s, m)) decreases m
{ if m > n { join_all_none(s, n, (m - 1) as nat); match (join_all(s, (m - 1) as nat), s[m - 1]) { (Some(a), Some(b)) => {}, _ => {} } } }
pub proof fn join_step(a: Result<ScalarType, Error>, b: Option<ST>) ensures match (a, b) { (Ok(t), Some(b)) => join(tv(t), b) == join(b, tv(t)) && (join(tv(t), b) is Some ==> nullable(join(tv(t), b)->0) == (nullable(tv(t)) || nullable(b))), _ => true }
{ match (a, b) { (Ok(t), Some(b)) => { join_sym(tv(t), b); if join(tv(t), b) is Some { join_null(tv(t), b); } }, _ => {} } }
pub proof fn expr_all(e: Expression)
 ensures match e { Expression::MakeTuple(v) => forall|i: int| 0 <= i < v@.len() ==> decreases_to!(e => *(#[trigger] v@[i])),
  Expression::Case { expr, when_part, else_part } => forall|i: int| 0 <= i < when_part@.len() ==> decreases_to!(e => *(#[trigger] when_part@[i]).guard) && decreases_to!(e => *when_part@[i].body), _ => true }
{ match e { Expression::MakeTuple(v) => { assert forall|i: int| 0 <= i < v@.len() implies decreases_to!(e => *(#[trigger] v@[i])) by { expr_less(e, i); } },
  Expression::Case { expr, when_part, else_part } => { assert forall|i: int| 0 <= i < when_part@.len() implies decreases_to!(e => *(#[trigger] when_part@[i]).guard) && decreases_to!(e => *when_part@[i].body) by { expr_less(e, i); } }, _ => {} } }
pub proof fn list_all(s: SetSpecification) ensures match s { SetSpecification::List(v) => forall|i: int| 0 <= i < v@.len() ==> decreases_to!(s => *(#[trigger] v@[i])), _ => true }
{ match s { SetSpecification::List(v) => { assert forall|i: int| 0 <= i < v@.len() implies decreases_to!(s => *(#[trigger] v@[i])) by { assert(decreases_to!(v@ => v@[i])); } }, _ => {} } }
pub proof fn guards_step(sw: Option<Option<ST>>, g: Seq<Option<ST>>, n: int) requires 0 <= n < g.len(), sw is None || sw->0 is Some
 ensures guards_ok(sw, g, n + 1) == (guards_ok(sw, g, n) && match sw { None => g[n] matches Some(ST::S(DataType::Logical, _)), Some(t) => g[n] is Some && join(g[n]->0, t->0) is Some })
{ if guards_ok(sw, g, n + 1) { assert(g[n] == g[n]); } }
pub proof fn scalars()
 ensures forall|typ: DataType, is_null: bool| #![trigger tv(ScalarType::Scalar { typ, is_null })] tv(ScalarType::Scalar { typ, is_null }) == ST::S(typ, is_null),
  forall|x: ScalarType| #![trigger tv(x)] (x matches ScalarType::Scalar { typ, is_null } ==> tv(x) == ST::S(typ, is_null)) && (x is Tuple ==> tv(x) is T),
  forall|k: DataType, n: bool| #![trigger nullable(ST::S(k, n))] nullable(ST::S(k, n)) == n,
  forall|a: ST, b: ST| #![trigger join(a, b)] (match (a, b) { (ST::S(k, m), ST::S(l, n)) => join(a, b) == (if k == l { Some(ST::S(k, m || n)) } else { None }), (ST::T(_), ST::T(_)) => join(a, b) is Some ==> join(a, b)->0 is T, _ => join(a, b) is None })
{ }
pub proof fn tuple_done(s: Seq<Option<ST>>, v: Vec<ScalarType>) requires v@.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == Some(tv(v@[i]))
 ensures tuple_type(s) == Some(tv(ScalarType::Tuple(v)))
{ assert(s.map_values(|t: Option<ST>| t->0) =~= tv(ScalarType::Tuple(v))->T_0); }
pub proof fn etype_def(e: Expression, c: Scope) ensures etype(e, c) == {   match e {
    Expression::Literal(l) => Some(lit_type(l)),
    Expression::QualifiedIdentifier(q) => (c.look)(q@),
    Expression::MakeTuple(v) => tuple_type(types_of(v@, c)),
    Expression::Select(s) => one_col(select_cols(s, c.s)),
    Expression::Unary { op, expr } => match etype(*expr, c) { Some(t) => unary_type(op, t), None => None },
    Expression::Binary { op, left, right } => match (etype(*left, c), etype(*right, c)) { (Some(a), Some(b)) => binary_type(op, a, b), _ => None },
    Expression::Comparison { op, left, right } => match (etype(*left, c), etype(*right, c)) { (Some(a), Some(b)) => compare_type(op, a, b), _ => None },
    Expression::In { expr, set } => in_type(etype(*expr, c), set_type(set, c)),
    Expression::Between { expr, lower, upper } => match (etype(*expr, c), etype(*lower, c), etype(*upper, c)) { (Some(x), Some(y), Some(z)) => between_type(x, y, z), _ => None },
    Expression::Case { expr, when_part, else_part } => case_type(match expr { Some(x) => Some(etype(*x, c)), None => None },
      guards_of(when_part@, c), bodies_of(when_part@, c), match else_part { Some(x) => Some(etype(*x, c)), None => None }),
  } },
  forall|v: Seq<Box<Expression>>| #![trigger types_of(v, c)] types_of(v, c).len() == v.len(),
  forall|v: Seq<WhenClause>| #![trigger guards_of(v, c)] guards_of(v, c).len() == v.len(),
  forall|v: Seq<WhenClause>| #![trigger bodies_of(v, c)] bodies_of(v, c).len() == v.len(),
  forall|g: Seq<Option<ST>>| #![trigger guards_ok(None, g, 0)] guards_ok(None, g, 0),
  forall|t: ST, g: Seq<Option<ST>>| #![trigger guards_ok(Some(Some(t)), g, 0)] guards_ok(Some(Some(t)), g, 0),
  forall|g: Seq<Option<ST>>, n: int| #![trigger guards_ok(Some(None), g, n)] !guards_ok(Some(None), g, n),
{ }
pub proof fn elem_at(v: Seq<Box<Expression>>, c: Scope, i: int) requires 0 <= i < v.len() ensures types_of(v, c).len() == v.len(), types_of(v, c)[i] == etype(*v[i], c) {}
// one step of the loop over the guards, and of the loop over the bodies
pub proof fn guard_at(sw: Option<Option<ST>>, v: Seq<WhenClause>, c: Scope, n: int) requires 0 <= n < v.len(), sw is None || sw->0 is Some
 ensures guards_of(v, c).len() == v.len(), guards_ok(sw, guards_of(v, c), n + 1) == (guards_ok(sw, guards_of(v, c), n) && match sw { None => etype(*v[n].guard, c) matches Some(ST::S(DataType::Logical, _)), Some(t) => etype(*v[n].guard, c) is Some && join(etype(*v[n].guard, c)->0, t->0) is Some })
{ guards_step(sw, guards_of(v, c), n); }
pub proof fn body_at(v: Seq<WhenClause>, c: Scope, n: int) requires 0 <= n < v.len()
 ensures bodies_of(v, c).len() == v.len(), n == 0 ==> join_all(bodies_of(v, c), 1) == etype(*v[0].body, c),
  n > 0 ==> join_all(bodies_of(v, c), (n + 1) as nat) == (match (join_all(bodies_of(v, c), n as nat), etype(*v[n].body, c)) { (Some(a), Some(b)) => join(a, b), _ => None }),
  forall|a: ST, b: ST| #![trigger join(a, b)] join(a, b) == join(b, a)
{ assert forall|a: ST, b: ST| #![trigger join(a, b)] join(a, b) == join(b, a) by { join_sym(a, b); } }
pub proof fn first_none(v: Seq<WhenClause>, c: Scope) requires v.len() > 0, etype(*v[0].body, c) is None ensures !scalar(join_all(bodies_of(v, c), v.len()))
{ join_all_none(bodies_of(v, c), 1, v.len()); }

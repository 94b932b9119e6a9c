//! P17..P21: names, scalar types, expressions, catalog, INSERT and UPDATE.
use crate::{hash_of as key, Ctx, Rng};
use cathlamet::sql::verif::ast::typing::{verif as t, ScalarType};
use cathlamet::sql::verif::ast::{self, Expression, Literal};
use cathlamet::sql::verif::schema::*;
use cathlamet::sql::verif::symbols::Name;
use cathlamet::sql::verif::types::DataType;
use std::cmp::Ordering;

fn up(s: &str) -> String { s.to_uppercase() }
fn same(a: &str, b: &str) -> bool { up(a) == up(b) }

// ---------------------------------------------------------------- names
fn gen_name(r: &mut Rng) -> String {
    let special = ['a', 'A', 'b', 'B', 'z', 'Z', '_', '0', '9', ' ', 'i', 'I', 'ı', 'İ', 'ß', 'ẞ', 's', 'S', 'ſ', 'ŉ', 'ǆ', 'ǅ', 'Ǆ', 'ﬀ', 'ﬃ', 'f', 'F', 'é', 'É', 'σ', 'ς', 'Σ', 'ΐ', 'k', 'K', '\u{212a}', '\u{10428}', '\u{10400}', '\u{1f80}', '\u{307}', '中', '\u{10ffff}', '\0', '[', '`', '{', '@'];
    let n = r.below(5);
    let mut s = String::new();
    for _ in 0..n { s.push(if r.chance(4, 5) { *r.pick(&special) } else { char::from_u32((r.next() % 0x11_0000) as u32).unwrap_or('x') }) }
    s
}
/// another spelling of the same name
fn respell(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => s.chars().flat_map(|c| if r.chance(1, 2) { c.to_uppercase().collect::<Vec<_>>() } else { c.to_lowercase().collect::<Vec<_>>() }).collect(),
        _ => s.into(),
    }
}
fn name_pair(a: &str, b: &str) -> Result<(), String> {
    let (na, nb) = (Name::from(a), Name::new(b.to_string()));
    let (ka, kb): (Vec<char>, Vec<char>) = (up(a).chars().collect(), up(b).chars().collect());
    let ord = ka.cmp(&kb);
    if (na == nb) != (ord == Ordering::Equal) { return Err(format!("equal: {}", na == nb)); }
    if (na != nb) == (ord == Ordering::Equal) { return Err(format!("not equal: {}", na != nb)); }
    if na.cmp(&nb) != ord { return Err(format!("cmp {:?}, upper-case forms {:?}", na.cmp(&nb), ord)); }
    if na.partial_cmp(&nb) != Some(ord) { return Err(format!("partial_cmp {:?}, upper-case forms {:?}", na.partial_cmp(&nb), ord)); }
    if (na < nb) != (ord == Ordering::Less) || (na <= nb) != (ord != Ordering::Greater) || (na > nb) != (ord == Ordering::Greater) || (na >= nb) != (ord != Ordering::Less) { return Err("the comparison operators disagree with the order".into()); }
    if nb.cmp(&na) != ord.reverse() || (nb == na) != (na == nb) { return Err("comparing the other way round disagrees".into()); }
    let st: &str = b;
    if (na == *st) != (ord == Ordering::Equal) { return Err(format!("equal to text: {}", na == *st)); }
    if na.partial_cmp(st) != Some(ord) { return Err(format!("compared with text: {:?}, upper-case forms {:?}", na.partial_cmp(st), ord)); }
    if na.as_str() != a || nb.as_str() != b || format!("{}", na) != a || na.clone().as_str() != a || Name::from(a.to_string()).as_str() != a { return Err(format!("spelling lost: {:?}", na.as_str())); }
    let m = std::cmp::max(na.clone(), nb.clone());
    if !same(m.as_str(), if ord == Ordering::Less { b } else { a }) { return Err("max".into()); }
    Ok(())
}
pub fn names(c: &mut Ctx) {
    // every character against its other spellings
    for u in 0..0x11_0000u32 {
        let ch = match char::from_u32(u) { Some(x) => x, None => continue };
        let a = ch.to_string();
        if a.to_uppercase() == a && a.to_lowercase() == a && u % 64 != 0 { continue; }
        for b in [a.to_uppercase(), a.to_lowercase(), format!("{}a", a), format!("A{}", a)] {
            let (x, y) = (a.clone(), b.clone());
            c.case(key(&(&x, &y)), true, || format!("{:?} and {:?}", x, y), || { name_pair(&x, &y)?; name_pair(&format!("t{}", x), &format!("T{}", y)) });
        }
    }
    while c.time_left() {
        let mut r = c.rng.clone();
        let a = gen_name(&mut r); let b = if r.chance(1, 2) { respell(&mut r, &a) } else { gen_name(&mut r) }; let d = if r.chance(1, 2) { respell(&mut r, &b) } else { gen_name(&mut r) };
        c.rng = r;
        c.case(key(&(&a, &b, &d)), a != b, || format!("{:?}, {:?}, {:?}", a, b, d), || {
            name_pair(&a, &b)?; name_pair(&b, &d)?; name_pair(&a, &d)?; name_pair(&a, &a)?;
            let (x, y, z) = (Name::from(a.as_str()), Name::from(b.as_str()), Name::from(d.as_str()));
            if x <= y && y <= z && !(x <= z) { return Err("not transitive".into()); }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- types
const KINDS: [DataType; 8] = [DataType::Generic, DataType::Varchar, DataType::Numeric, DataType::Logical, DataType::Date, DataType::Time, DataType::Timestamp, DataType::Geometry];
#[derive(Clone, Debug, PartialEq)]
pub enum T { S(DataType, bool), T(Vec<T>) }
impl T {
    fn real(&self) -> ScalarType { match self { T::S(k, n) => ScalarType::Scalar { typ: *k, is_null: *n }, T::T(v) => ScalarType::Tuple(v.iter().map(|x| x.real()).collect()) } }
    fn of(x: &ScalarType) -> T { match x { ScalarType::Scalar { typ, is_null } => T::S(*typ, *is_null), ScalarType::Tuple(v) => T::T(v.iter().map(T::of).collect()) } }
    fn nullable(&self) -> bool { match self { T::S(_, n) => *n, T::T(v) => v.iter().any(|x| x.nullable()) } }
}
fn join(a: &T, b: &T) -> Option<T> {
    match (a, b) {
        (T::S(k, m), T::S(l, n)) if k == l => Some(T::S(*k, *m || *n)),
        (T::T(v), T::T(w)) if v.len() == w.len() => { let mut r = vec![]; for (x, y) in v.iter().zip(w) { r.push(join(x, y)?) } Some(T::T(r)) }
        _ => None,
    }
}
fn gen_type(r: &mut Rng, depth: usize) -> T {
    if depth == 0 || r.chance(1, 2) { T::S(*r.pick(&KINDS), r.chance(1, 2)) } else { let n = r.below(4); T::T((0..n).map(|_| gen_type(r, depth - 1)).collect()) }
}
/// the same kinds, other nullability; sometimes one thing is different
fn near(r: &mut Rng, t: &T) -> T {
    if r.chance(1, 24) { return gen_type(r, 1); }
    match t {
        T::S(k, _) => T::S(if r.chance(1, 20) { *r.pick(&KINDS) } else { *k }, r.chance(1, 2)),
        T::T(v) => { let mut w: Vec<T> = v.iter().map(|x| near(r, x)).collect(); if r.chance(1, 16) { if r.chance(1, 2) || w.is_empty() { w.push(gen_type(r, 0)) } else { w.pop(); } } T::T(w) }
    }
}
fn type_pair(a: &T, b: &T) -> Result<(), String> {
    let want = join(a, b);
    for (x, y) in [(a, b), (b, a)] {
        let got = t::is_compatible(&x.real(), &y.real()).ok();
        let w = want.as_ref().map(|j| j.nullable());
        if got != w { return Err(format!("is_compatible says {:?}, not {:?}", got, w)); }
        let got = t::unify(&x.real(), &y.real()).ok().map(|z| T::of(&z));
        if got != want { return Err(format!("unify gives {:?}, not {:?}", got, want)); }
    }
    if let (T::S(k, m), T::S(l, n)) = (a, b) {
        if t::is_assignable((*k, *m), (*l, *n)) != (k == l && (!*m || *n)) { return Err("is_assignable_to".into()); }
    }
    Ok(())
}
pub fn types(c: &mut Ctx) {
    for k in KINDS { for l in KINDS { for n in 0..4 {
        let (a, b) = (T::S(k, n & 1 != 0), T::S(l, n & 2 != 0));
        for w in 0..3 {
            let wrap = |x: &T| match w { 0 => x.clone(), 1 => T::T(vec![x.clone()]), _ => T::T(vec![T::S(DataType::Date, false), x.clone()]) };
            let (x, y) = (wrap(&a), wrap(&b));
            c.case(key(&format!("{:?}{:?}", x, y)), true, || format!("{:?} and {:?}", x, y), || { type_pair(&x, &y)?; type_pair(&x, &T::T(vec![y.clone()])) });
        }
    } } }
    while c.time_left() {
        let mut r = c.rng.clone();
        let d = 1 + r.below(5);
        let a = gen_type(&mut r, d); let b = if r.chance(4, 5) { near(&mut r, &a) } else { gen_type(&mut r, 3) };
        c.rng = r;
        c.case(key(&format!("{:?}{:?}", a, b)), true, || format!("{:?} and {:?}", a, b), || type_pair(&a, &b));
    }
}

// ---------------------------------------------------------------- expressions
#[derive(Clone, Debug)]
pub enum E {
    Lit(u8), Name(Vec<String>), Tuple(Vec<E>), Un(u8, Box<E>), Bin(u8, Box<E>, Box<E>), Cmp(u8, Box<E>, Box<E>),
    InList(Box<E>, Vec<E>), InName(Box<E>, Vec<String>), Between(Box<E>, Box<E>, Box<E>), Case(Option<Box<E>>, Vec<(E, E)>, Option<Box<E>>),
    Sub(Sel), InSub(Box<E>, Sel),
}
/// SELECT without WITH and ORDER BY
#[derive(Clone, Debug)]
pub struct Sel { q: Box<Q>, limit: Option<(Box<E>, Option<Box<E>>)> }
#[derive(Clone, Debug)]
pub enum Q { Values(Vec<Vec<E>>), Op(u8, Box<Q>, Box<Q>), Query { cols: Option<Vec<RC>>, from: Vec<F>, wh: Option<Box<E>>, group: Option<(Vec<E>, Option<Box<E>>)> } }
#[derive(Clone, Debug)]
pub enum RC { All(String), Expr(E, Option<String>) }
#[derive(Clone, Debug)]
pub enum F { Named(Vec<String>, Option<String>), Sub(Sel, Option<String>), Join(u8, Box<F>, Box<F>, Result<Box<E>, Vec<String>>) }
pub type Cols = Vec<(String, DataType, bool)>;
/// schema name, tables
#[derive(Clone, Debug)]
pub struct Db { schemas: Vec<(String, Vec<(String, Cols)>)>, default: String }

fn names_of(v: &[String]) -> Vec<Name> { v.iter().map(|s| Name::from(s.as_str())).collect() }
impl E {
    fn real(&self) -> Box<Expression> {
        Box::new(match self {
            E::Lit(n) => Expression::Literal(match n { 0 => Literal::StringLiteral("x".into()), 1 => Literal::NumericLiteral("1".into()), 2 => Literal::Null, 3 => Literal::CurrentTime, 4 => Literal::CurrentDate, 5 => Literal::CurrentTimestamp, 6 => Literal::DateLiteral("d".into()), 7 => Literal::TimeLiteral("t".into()), _ => Literal::TimestampLiteral("s".into()) }),
            E::Name(v) => Expression::QualifiedIdentifier(names_of(v)),
            E::Tuple(v) => Expression::MakeTuple(v.iter().map(|e| e.real()).collect()),
            E::Un(o, e) => Expression::Unary { op: match o { 0 => ast::UnaryOperator::Negate, 1 => ast::UnaryOperator::Not, _ => ast::UnaryOperator::IsNull }, expr: e.real() },
            E::Bin(o, a, b) => Expression::Binary { op: match o { 0 => ast::BinaryOperator::Multiply, 1 => ast::BinaryOperator::Divide, 2 => ast::BinaryOperator::Add, 3 => ast::BinaryOperator::Subtract, 4 => ast::BinaryOperator::Concat, 5 => ast::BinaryOperator::And, _ => ast::BinaryOperator::Or }, left: a.real(), right: b.real() },
            E::Cmp(o, a, b) => Expression::Comparison { op: match o { 0 => ast::ComparisonOperator::Equal, 1 => ast::ComparisonOperator::NotEqual, 2 => ast::ComparisonOperator::LessThan, 3 => ast::ComparisonOperator::LessEqual, 4 => ast::ComparisonOperator::GreaterThan, 5 => ast::ComparisonOperator::GreaterEqual, _ => ast::ComparisonOperator::Like }, left: a.real(), right: b.real() },
            E::InList(e, v) => Expression::In { expr: e.real(), set: ast::SetSpecification::List(v.iter().map(|x| x.real()).collect()) },
            E::InName(e, v) => Expression::In { expr: e.real(), set: ast::SetSpecification::Name(names_of(v)) },
            E::Between(a, b, d) => Expression::Between { expr: a.real(), lower: b.real(), upper: d.real() },
            E::Case(s, w, e) => Expression::Case { expr: s.as_ref().map(|x| x.real()), when_part: w.iter().map(|(g, b)| ast::WhenClause { guard: g.real(), body: b.real() }).collect(), else_part: e.as_ref().map(|x| x.real()) },
            E::Sub(q) => Expression::Select(q.real()),
            E::InSub(e, q) => Expression::In { expr: e.real(), set: ast::SetSpecification::Select(q.real()) },
        })
    }
}
impl Db {
    fn real(&self) -> Database {
        let mut d = Database::new();
        for (s, tabs) in &self.schemas {
            d.create_schema(&Name::from(s.as_str())).unwrap();
            let sc = d.schemata.get_mut(&Name::from(s.as_str())).unwrap();
            for (i, (tn, cols)) in tabs.iter().enumerate() {
                let rows = RowSet { columns: cols.iter().enumerate().map(|(j, (n, k, nul))| Column { name: Name::from(n.as_str()), not_null: !nul, primary_key: j == 0, data_type: *k }).collect() };
                let n = Name::from(tn.as_str());
                sc.objects.insert(n.clone(), if i % 3 == 2 { SchemaObject::View(View { name: n, rows, query: String::new() }) } else { SchemaObject::Table(Table { name: n, rows, primary_key: vec![] }) });
            }
        }
        d
    }
    fn table(&self, name: &[String]) -> Option<&Cols> {
        let (s, tn) = match name { [tn] => (&self.default, tn), [s, tn] => (s, tn), _ => return None };
        self.schemas.iter().find(|x| same(&x.0, s))?.1.iter().find(|x| same(&x.0, tn)).map(|x| &x.1)
    }
}
fn nm(s: &String) -> Name { Name::from(s.as_str()) }
impl Sel { fn real(&self) -> ast::SelectStatement { ast::SelectStatement { common: vec![], expr: Box::new(self.q.real()), order_by: vec![], limit: self.limit.as_ref().map(|(n, o)| ast::Limit { number_rows: n.real(), offset_value: o.as_ref().map(|x| x.real()) }) } } }
impl Q {
    fn real(&self) -> ast::SetExpression {
        match self {
            Q::Values(rows) => ast::SetExpression::Values(rows.iter().map(|r| r.iter().map(|e| e.real()).collect()).collect()),
            Q::Op(o, a, b) => ast::SetExpression::Op { op: match o { 0 => ast::SetOperator::Intersect, 1 => ast::SetOperator::Except, 2 => ast::SetOperator::Union, _ => ast::SetOperator::UnionAll }, left: Box::new(a.real()), right: Box::new(b.real()) },
            Q::Query { cols, from, wh, group } => ast::SetExpression::Query {
                mode: if from.len() % 2 == 0 { ast::SelectMode::All } else { ast::SelectMode::Distinct },
                columns: match cols { None => ast::ResultColumns::All, Some(v) => ast::ResultColumns::List(v.iter().map(|c| Box::new(match c { RC::All(n) => ast::ResultColumn::AllFrom(nm(n)), RC::Expr(e, a) => ast::ResultColumn::Expr { expr: e.real(), rename: a.as_ref().map(nm) } })).collect()) },
                from: from.iter().map(|f| Box::new(f.real())).collect(), where_expr: wh.as_ref().map(|e| e.real()),
                group_by: group.as_ref().map(|(g, h)| ast::GroupBy { groupings: g.iter().map(|e| e.real()).collect(), having: h.as_ref().map(|e| e.real()) }),
            },
        }
    }
}
impl F {
    fn real(&self) -> ast::TableExpression {
        match self {
            F::Named(n, a) => ast::TableExpression::Named { name: names_of(n), alias: a.as_ref().map(nm) },
            F::Sub(q, a) => ast::TableExpression::Select { select: q.real(), alias: a.as_ref().map(nm) },
            F::Join(o, a, b, c) => ast::TableExpression::Join { left: Box::new(a.real()), right: Box::new(b.real()), op: match o { 0 => ast::JoinOperator::Join(ast::JoinType::Inner), 1 => ast::JoinOperator::Natural(ast::JoinType::Full), _ => ast::JoinOperator::Cross }, constraint: match c { Ok(e) => ast::JoinConstraint::Expr(e.real()), Err(v) => ast::JoinConstraint::Columns(names_of(v)) } },
        }
    }
}
// the columns of queries: a second reading
type Rels = Vec<(String, Cols)>;
fn fresh(used: &mut Vec<String>, n: &str) -> String { let mut x = n.to_string(); let mut i = 0; while used.iter().any(|u| same(u, &x)) { i += 1; x = format!("{}{}", n, i); } used.push(x.clone()); x }
fn logical(e: &Option<Box<E>>, db: &Db, rel: &Rels) -> Option<()> { match e { None => Some(()), Some(e) => match typ(e, db, rel)? { T::S(DataType::Logical, _) => Some(()), _ => None } } }
fn sel_cols(s: &Sel, db: &Db) -> Option<Cols> {
    let c = q_cols(&s.q, db)?;
    if let Some((n, o)) = &s.limit { for e in std::iter::once(n).chain(o) { if typ(e, db, &[])? != T::S(DataType::Numeric, false) { return None; } } }
    Some(c)
}
fn q_cols(q: &Q, db: &Db) -> Option<Cols> {
    match q {
        Q::Values(rows) => rows_type(rows, db).map(|t| t.into_iter().enumerate().map(|(i, t)| match t { T::S(k, n) => (format!("_col{}", i), k, n), _ => unreachable!() }).collect()),
        Q::Op(_, a, b) => { let (a, b) = (q_cols(a, db)?, q_cols(b, db)?); if a.len() != b.len() { return None; } a.into_iter().zip(b).map(|(x, y)| if x.1 == y.1 { Some((x.0, x.1, x.2 || y.2)) } else { None }).collect() }
        Q::Query { cols, from, wh, group } => {
            let (mut rel, mut star) = (vec![], vec![]);
            for f in from { f_cols(f, db, &mut rel, &mut star)?; }
            logical(wh, db, &rel)?;
            if let Some((g, h)) = group { for e in g { typ(e, db, &rel)?; } logical(h, db, &rel)?; }
            let (mut out, mut used): (Cols, _) = (vec![], vec![]);
            let mut put = |n: &str, k, b| { let x = fresh(&mut used, n); out.push((x, k, b)) };
            match cols {
                None => for c in &star { put(&c.0, c.1, c.2) },
                Some(v) => for c in v { match c {
                    RC::All(n) => for c in &rel.iter().find(|x| same(&x.0, n))?.1 { put(&c.0, c.1, c.2) },
                    RC::Expr(e, a) => match typ(e, db, &rel)? { T::S(k, b) => put(a.as_ref().map(|s| s.as_str()).unwrap_or("col"), k, b), _ => return None },
                } },
            }
            Some(out)
        }
    }
}
fn f_cols(f: &F, db: &Db, rel: &mut Rels, star: &mut Cols) -> Option<()> {
    let (name, cols) = match f {
        F::Named(n, a) => { let c = db.table(n)?.clone(); (Some(a.clone().unwrap_or(n.last().unwrap().clone())), c) }
        F::Sub(q, a) => (a.clone(), sel_cols(q, db)?),
        F::Join(_, a, b, c) => { f_cols(a, db, rel, star)?; f_cols(b, db, rel, star)?; return match c { Ok(e) => logical(&Some(e.clone()), db, rel), Err(_) => Some(()) }; }
    };
    if let Some(n) = name { if rel.iter().any(|x| same(&x.0, &n)) { return None; } rel.push((n, cols.clone())); }
    star.extend(cols); Some(())
}
fn rows_type(rows: &[Vec<E>], db: &Db) -> Option<Vec<T>> {
    let mut tys: Option<Vec<T>> = None;
    for row in rows {
        let ts: Vec<T> = row.iter().map(|e| typ(e, db, &[])).collect::<Option<_>>()?;
        if ts.iter().any(|x| matches!(x, T::T(_))) { return None; }
        tys = Some(match tys { None => ts, Some(o) => { if o.len() != ts.len() { return None; } o.iter().zip(&ts).map(|(a, b)| join(a, b)).collect::<Option<_>>()? } });
    }
    tys
}
fn ordered(k: DataType) -> bool { matches!(k, DataType::Varchar | DataType::Numeric | DataType::Date | DataType::Time | DataType::Timestamp) }
fn typ(e: &E, db: &Db, rel: &[(String, Cols)]) -> Option<T> {
    let go = |x: &E| typ(x, db, rel);
    let sc = |x: &E| match go(x)? { T::S(k, n) => Some((k, n)), _ => None };
    let log = |n| Some(T::S(DataType::Logical, n));
    match e {
        E::Sub(q) => { let c = sel_cols(q, db)?; if c.len() == 1 { Some(T::S(c[0].1, c[0].2)) } else { None } }
        E::InSub(x, q) => { let (k, m) = sc(x)?; let c = sel_cols(q, db)?; if c.len() == 1 && c[0].1 == k { log(m || c[0].2) } else { None } }
        E::Lit(n) => Some(match n { 0 => T::S(DataType::Varchar, false), 1 => T::S(DataType::Numeric, false), 2 => T::S(DataType::Generic, true), 3 | 7 => T::S(DataType::Time, false), 4 | 6 => T::S(DataType::Date, false), _ => T::S(DataType::Timestamp, false) }),
        E::Name(v) if v.len() == 1 => {
            if rel.iter().any(|x| same(&x.0, &v[0])) { return None; }
            let mut all = rel.iter().flat_map(|x| x.1.iter()).filter(|x| same(&x.0, &v[0]));
            let f = all.next()?;
            if all.next().is_some() { return None; }
            Some(T::S(f.1, f.2))
        }
        E::Name(v) if v.len() == 2 => { let q = rel.iter().find(|x| same(&x.0, &v[0]))?; let f = q.1.iter().find(|x| same(&x.0, &v[1]))?; Some(T::S(f.1, f.2)) }
        E::Name(_) => None,
        E::Tuple(v) => v.iter().map(go).collect::<Option<Vec<_>>>().map(T::T),
        E::Un(0, x) => { let (k, n) = sc(x)?; if k == DataType::Numeric { Some(T::S(k, n)) } else { None } }
        E::Un(1, x) => { let (k, n) = sc(x)?; if k == DataType::Logical { Some(T::S(k, n)) } else { None } }
        E::Un(_, x) => { sc(x)?; log(false) }
        E::Bin(o, a, b) => { let ((k, m), (l, n)) = (sc(a)?, sc(b)?); let w = match o { 0..=3 => DataType::Numeric, 4 => DataType::Varchar, _ => DataType::Logical }; if k == w && l == w { Some(T::S(w, m || n)) } else { None } }
        E::Cmp(0 | 1, a, b) => { let j = join(&go(a)?, &go(b)?)?; log(j.nullable()) }
        E::Cmp(o, a, b) => { let ((k, m), (l, n)) = (sc(a)?, sc(b)?); if k == l && (if *o < 6 { ordered(k) } else { k == DataType::Varchar }) { log(m || n) } else { None } }
        E::Between(a, b, d) => { let ((k, m), (l, n), (p, q)) = (sc(a)?, sc(b)?, sc(d)?); if k == l && k == p && ordered(k) { log(m || n || q) } else { None } }
        E::InList(x, v) => { let (k, m) = sc(x)?; if v.is_empty() { return None; } let mut nul = m; for y in v { let (l, n) = sc(y)?; if k != l { return None; } nul |= n; } log(nul) }
        E::InName(x, n) => { let (k, m) = sc(x)?; let tb = db.table(n)?; if tb.len() != 1 || tb[0].1 != k { return None; } log(m || tb[0].2) }
        E::Case(s, w, els) => {
            let st = match s { Some(s) => Some(go(s)?), None => None };
            let mut res: Option<(DataType, bool)> = None;
            for (g, b) in w {
                match &st { Some(st) => { join(&go(g)?, st)?; } None => if sc(g)?.0 != DataType::Logical { return None; } }
                let (k, n) = sc(b)?;
                res = Some(match res { None => (k, n), Some((l, m)) if l == k => (k, m || n), _ => return None });
            }
            let (k, n) = res?;
            Some(match els { None => T::S(k, true), Some(x) => { let (l, m) = sc(x)?; if l != k { return None; } T::S(k, n || m) } })
        }
    }
}
/// an expression that is mostly of the wanted kind
fn gen_expr(r: &mut Rng, depth: usize, want: DataType, rel: &[(String, Cols)], db: &Db) -> E {
    if r.chance(1, 40) { let k = *r.pick(&KINDS); return gen_expr(r, depth.saturating_sub(1), k, rel, db); }
    if r.chance(1, 60) { let n = r.below(3); return E::Tuple((0..n).map(|_| { let k = *r.pick(&KINDS); gen_expr(r, depth.saturating_sub(1), k, rel, db) }).collect()); }
    let leaf = |r: &mut Rng| -> E {
        if r.chance(1, 40) { let n = r.below(4); return E::Name((0..n).map(|_| r.pick(&["t", "u", "a", "x", "nope"]).to_string()).collect()); }
        if r.chance(3, 5) {
            let hits: Vec<(String, String)> = rel.iter().flat_map(|q| q.1.iter().filter(|f| f.1 == want).map(move |f| (q.0.clone(), f.0.clone()))).collect();
            if !hits.is_empty() { let (q, f) = r.pick(&hits).clone(); let (q, f) = (respell(r, &q), respell(r, &f)); return E::Name(if r.chance(1, 2) { vec![f] } else { vec![q, f] }); }
        }
        E::Lit(match want { DataType::Varchar => 0, DataType::Numeric => 1, DataType::Generic => 2, DataType::Time => *r.pick(&[3, 7]), DataType::Date => *r.pick(&[4, 6]), DataType::Timestamp => *r.pick(&[5, 8]), _ => r.below(9) as u8 })
    };
    if depth == 0 { return if want == DataType::Logical { E::Un(2, Box::new(leaf(r))) } else { leaf(r) }; }
    let d = depth - 1;
    if r.chance(1, 25) { return E::Sub(gen_sel(r, d, Some(&[want]), db)); }
    if want == DataType::Logical && r.chance(1, 25) { let k = *r.pick(&KINDS); return E::InSub(Box::new(gen_expr(r, d, k, rel, db)), gen_sel(r, d, Some(&[k]), db)); }
    if r.chance(1, 5) {
        let n = if r.chance(1, 30) { 0 } else { 1 + r.below(3) };
        let (s, gk) = if r.chance(1, 2) { let k = *r.pick(&KINDS); (Some(Box::new(gen_expr(r, d, k, rel, db))), k) } else { (None, DataType::Logical) };
        let w = (0..n).map(|_| (gen_expr(r, d, gk, rel, db), gen_expr(r, d, want, rel, db))).collect();
        let e = if r.chance(2, 3) { Some(Box::new(gen_expr(r, d, want, rel, db))) } else { None };
        return E::Case(s, w, e);
    }
    let b = |r: &mut Rng, k: DataType| Box::new(gen_expr(r, d, k, rel, db));
    let ok = [DataType::Varchar, DataType::Numeric, DataType::Date, DataType::Time, DataType::Timestamp];
    match want {
        DataType::Numeric if r.chance(2, 3) => if r.chance(1, 4) { E::Un(0, b(r, want)) } else { E::Bin(r.below(4) as u8, b(r, want), b(r, want)) },
        DataType::Varchar if r.chance(2, 3) => E::Bin(4, b(r, want), b(r, want)),
        DataType::Logical => match r.below(8) {
            0 => E::Un(1, b(r, want)),
            1 => { let k = *r.pick(&KINDS); E::Un(2, b(r, k)) }
            2 => E::Bin(5 + r.below(2) as u8, b(r, want), b(r, want)),
            3 => if r.chance(1, 3) { let n = r.below(4); let ks: Vec<DataType> = (0..n).map(|_| *r.pick(&KINDS)).collect(); let mut tup = |r: &mut Rng| Box::new(E::Tuple(ks.iter().map(|k| gen_expr(r, d, *k, rel, db)).collect())); E::Cmp(r.below(2) as u8, tup(r), tup(r)) } else { let k = *r.pick(&KINDS); E::Cmp(r.below(2) as u8, b(r, k), b(r, k)) },
            4 => { let k = if r.chance(1, 10) { *r.pick(&KINDS) } else { *r.pick(&ok) }; E::Cmp(2 + r.below(4) as u8, b(r, k), b(r, k)) }
            5 => E::Cmp(6, b(r, DataType::Varchar), b(r, DataType::Varchar)),
            6 => { let k = if r.chance(1, 10) { *r.pick(&KINDS) } else { *r.pick(&ok) }; E::Between(b(r, k), b(r, k), b(r, k)) }
            _ => { let k = *r.pick(&KINDS); if r.chance(1, 4) {
                    let mut q = db.table_names(r); if r.chance(1, 20) { q = vec!["nope".into()]; }
                    let k = db.table(&q).and_then(|c| c.get(0)).map(|c| c.1).unwrap_or(k);
                    E::InName(b(r, k), q)
                } else { let n = if r.chance(1, 40) { 0 } else { 1 + r.below(3) }; E::InList(b(r, k), (0..n).map(|_| gen_expr(r, d, k, rel, db)).collect()) } }
        },
        _ => leaf(r),
    }
}
fn word(r: &mut Rng) -> String { let w = r.pick(&["t", "u", "a", "b", "a1", "a2", "col", "col1", "_col0", "v"]).to_string(); respell(r, &w) }
fn gen_sel(r: &mut Rng, depth: usize, kinds: Option<&[DataType]>, db: &Db) -> Sel {
    let q = Box::new(gen_q(r, depth, kinds, db));
    let num = |r: &mut Rng| { let d = r.below(2); let k = if r.chance(1, 20) { *r.pick(&KINDS) } else { DataType::Numeric }; let e = gen_expr(r, d.min(depth), k, &[], db); Box::new(if r.chance(1, 12) { E::Case(None, vec![(E::Un(2, Box::new(E::Lit(0))), e)], None) } else { e }) };
    Sel { q, limit: if r.chance(1, 6) { Some((num(r), if r.chance(1, 2) { Some(num(r)) } else { None })) } else { None } }
}
fn gen_from(r: &mut Rng, depth: usize, joins: usize, rel: &mut Rels, db: &Db) -> F {
    let mut free = |r: &mut Rng, n: String, rel: &Rels| { let mut n = n; for _ in 0..6 { if !rel.iter().any(|x| same(&x.0, &n)) || r.chance(1, 30) { break; } n = word(r); } n };
    let f = match r.below(5) {
        0 | 1 if joins > 0 => {
            let a = gen_from(r, depth, joins - 1, rel, db); let b = gen_from(r, depth, joins - 1, rel, db);
            let c = if r.chance(3, 4) { let d = r.below(2).min(depth); let k = if r.chance(1, 20) { *r.pick(&KINDS) } else { DataType::Logical }; Ok(Box::new(gen_expr(r, d, k, rel, db))) } else { Err(vec![word(r)]) };
            return F::Join(r.below(3) as u8, Box::new(a), Box::new(b), c);
        }
        2 if depth > 0 => { let q = gen_sel(r, depth - 1, None, db); let a = if r.chance(1, 6) { None } else { let n = word(r); Some(free(r, n, rel)) }; F::Sub(q, a) }
        _ => { let mut n = db.table_names(r); for _ in 0..8 { if db.table(&n).is_some() { break; } n = db.table_names(r); }
            let last = n.last().unwrap().clone(); let m = free(r, last.clone(), rel); let a = if same(&m, &last) && r.chance(1, 2) { None } else if same(&m, &last) { let w = word(r); Some(free(r, w, rel)) } else { Some(m) }; F::Named(n, a) }
    };
    let _ = f_cols(&f, db, rel, &mut vec![]);
    f
}
fn gen_q(r: &mut Rng, depth: usize, kinds: Option<&[DataType]>, db: &Db) -> Q {
    let some = |r: &mut Rng| -> Vec<DataType> { let n = 1 + r.below(3); (0..n).map(|_| *r.pick(&KINDS)).collect() };
    match r.below(8) {
        0 => { let k: Vec<(DataType, bool)> = kinds.map(|k| k.to_vec()).unwrap_or_else(|| some(r)).into_iter().map(|k| (k, false)).collect(); Q::Values(near_rows(r, &k, db)) }
        1 | 2 if depth > 0 => {
            let a = gen_q(r, depth - 1, kinds, db);
            let k: Vec<DataType> = q_cols(&a, db).map(|c| c.into_iter().map(|c| c.1).collect()).unwrap_or_else(|| some(r));
            let k = if r.chance(1, 15) { some(r) } else { k };
            let b = gen_q(r, depth - 1, Some(&k), db);
            if r.chance(1, 2) { Q::Op(r.below(4) as u8, Box::new(a), Box::new(b)) } else { Q::Op(r.below(4) as u8, Box::new(b), Box::new(a)) }
        }
        _ => {
            let mut rel = vec![]; let nf = if r.chance(1, 8) { 0 } else { 1 + r.below(2) };
            let from: Vec<F> = (0..nf).map(|_| { let j = r.below(3); gen_from(r, depth, j, &mut rel, db) }).collect();
            let ex = |r: &mut Rng, k: DataType, rel: &Rels| { let d = r.below(3).min(depth); let k = if r.chance(1, 25) { *r.pick(&KINDS) } else { k }; gen_expr(r, d, k, rel, db) };
            let cols = match kinds {
                Some(k) => Some(k.iter().map(|k| RC::Expr(ex(r, *k, &rel), if r.chance(1, 2) { Some(word(r)) } else { None })).collect()),
                None if r.chance(1, 3) => None,
                None => { let n = 1 + r.below(4); Some((0..n).map(|_| if r.chance(1, 3) && !rel.is_empty() { let n = if r.chance(1, 20) { word(r) } else { r.pick(&rel).0.clone() }; RC::All(respell(r, &n)) } else {
                    let k = *r.pick(&KINDS); let e = if r.chance(1, 2) && !rel.is_empty() { let q = r.pick(&rel).clone(); if q.1.is_empty() { ex(r, k, &rel) } else { let c = r.pick(&q.1).0.clone(); E::Name(if r.chance(1, 2) { vec![c] } else { vec![q.0, c] }) } } else { ex(r, k, &rel) };
                    RC::Expr(e, if r.chance(2, 3) { Some(word(r)) } else { None }) }).collect()) }
            };
            let wh = if r.chance(1, 4) { Some(Box::new(ex(r, DataType::Logical, &rel))) } else { None };
            let group = if r.chance(1, 6) { let n = 1 + r.below(2); let g = (0..n).map(|_| { let k = *r.pick(&KINDS); ex(r, k, &rel) }).collect(); Some((g, if r.chance(1, 2) { Some(Box::new(ex(r, DataType::Logical, &rel))) } else { None })) } else { None };
            Q::Query { cols, from, wh, group }
        }
    }
}
/// P25
pub fn selects(c: &mut Ctx) {
    let mut i = 0u64;
    while c.time_left() {
        let mut r = c.rng.clone(); i += 1;
        let db = gen_db(&mut r); let real = db.real(); let dflt = Name::from(db.default.as_str());
        for _ in 0..8 {
            let depth = if i < 2000 { r.below(2) } else { r.below(4) };
            let s = gen_sel(&mut r, depth, None, &db);
            let want = sel_cols(&s, &db);
            c.case(key(&format!("{:?}{:?}", s, db)), want.is_some(), || format!("{:?} in {:?}", s, db), || {
                let ok = t::check(&ast::Statement::Select(s.real()), &real, &dflt);
                if ok.is_ok() != want.is_some() { return Err(format!("accepted: {}, should be: {} ({:?})", ok.is_ok(), want.is_some(), ok)); }
                // the columns, as those of a derived table, and of the query alone
                let q = Q::Query { cols: None, from: vec![F::Sub(s.clone(), None)], wh: None, group: None };
                for q in [&q, &*s.q] {
                    let up2 = |v: Cols| v.into_iter().map(|c| (up(&c.0), c.1, c.2)).collect::<Vec<_>>();
                    let got = t::infer_rows(&q.real(), &real, &dflt).ok().map(|v| up2(v.into_iter().map(|c| (c.0.as_str().to_string(), c.1, c.2)).collect()));
                    let want = q_cols(q, &db).map(up2);
                    if got != want { return Err(format!("columns {:?}, not {:?}", got, want)); }
                }
                Ok(())
            });
        }
        c.rng = r;
    }
}
impl Db {
    fn table_names(&self, r: &mut Rng) -> Vec<String> {
        let s = if r.chance(1, 2) { self.schemas.iter().find(|s| same(&s.0, &self.default)).cloned() } else { None };
        let (q, s) = match s { Some(s) => (false, s), None => if self.schemas.is_empty() { return vec!["t".into()] } else { (true, r.pick(&self.schemas).clone()) } };
        let tn = if s.1.is_empty() { "t".to_string() } else { r.pick(&s.1).0.clone() };
        let tn = respell(r, &tn);
        if q { vec![respell(r, &s.0), tn] } else { vec![tn] }
    }
}
const WORDS: [&str; 10] = ["t", "u", "a", "b", "c", "straße", "x", "_col0", "_col1", "col"];
fn distinct(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..n { let w = r.pick(&WORDS).to_string(); let w = respell(r, &w); if !v.iter().any(|x| same(x, &w)) { v.push(w) } }
    v
}
fn gen_cols(r: &mut Rng, min: usize) -> Cols { let n = min + r.below(5); distinct(r, n).into_iter().map(|n| (n, if r.chance(1, 2) { *r.pick(&[DataType::Numeric, DataType::Varchar, DataType::Logical]) } else { *r.pick(&KINDS) }, r.chance(1, 2))).collect() }
fn gen_db(r: &mut Rng) -> Db {
    let n = 1 + r.below(3);
    let schemas: Vec<(String, Vec<(String, Cols)>)> = distinct(r, n).into_iter().map(|s| { let m = r.below(4); (s, distinct(r, m).into_iter().map(|t| { let c = if r.chance(1, 3) { gen_cols(r, 1).into_iter().take(1).collect() } else { gen_cols(r, 0) }; (t, c) }).collect()) }).collect();
    let default = if r.chance(1, 15) || schemas.is_empty() { "nowhere".to_string() } else { let s = r.pick(&schemas).0.clone(); respell(r, &s) };
    Db { schemas, default }
}
fn real_cols(c: &Cols) -> t::Columns { c.iter().map(|(n, k, b)| (Name::from(n.as_str()), *k, *b)).collect() }
pub fn exprs(c: &mut Ctx) {
    let mut i = 0u64;
    while c.time_left() {
        let mut r = c.rng.clone(); i += 1;
        let db = gen_db(&mut r);
        let nr = if r.chance(1, 4) { 3 + r.below(4) } else { r.below(4) };
        let mut rel: Vec<(String, Cols)> = distinct(&mut r, nr).into_iter().map(|n| (n, gen_cols(&mut r, 1))).collect();
        if r.chance(1, 30) && !rel.is_empty() { let d = (respell(&mut r, &rel[0].0), gen_cols(&mut r, 0)); rel.push(d); }
        let k = *r.pick(&KINDS); let depth = if i < 20000 { r.below(3) } else { r.below(6) };
        let real = db.real();
        let rrel: Vec<(Name, t::Columns)> = rel.iter().map(|(n, c)| (Name::from(n.as_str()), real_cols(c))).collect();
        let dup = rel.iter().enumerate().any(|(i, x)| rel[..i].iter().any(|y| same(&x.0, &y.0)));
        for _ in 0..6 {
            let e = gen_expr(&mut r, depth, k, &rel, &db);
            let want = typ(&e, &db, &rel);
            c.case(key(&format!("{:?}{:?}{:?}", e, rel, db)), want.is_some(), || format!("{:?} over {:?} in {:?}", e, rel, db), || {
                match t::infer(&e.real(), &real, &Name::from(db.default.as_str()), &rrel) {
                    Err(_) => if dup { Ok(()) } else { Err("relations refused".into()) },
                    Ok(_) if dup => Err("two relations of one name accepted".into()),
                    Ok(got) => { let got = got.ok().map(|x| T::of(&x)); if got == want { Ok(()) } else { Err(format!("typed {:?}, not {:?}", got, want)) } }
                }
            });
        }
        c.rng = r;
    }
}

// ---------------------------------------------------------------- catalog
pub fn catalog(c: &mut Ctx) {
    while c.time_left() {
        let mut r = c.rng.clone();
        let steps = 1 + r.below(8);
        let names: Vec<String> = (0..steps).map(|_| { let w = if r.chance(1, 3) { gen_name(&mut r) } else { r.pick(&WORDS).to_string() }; respell(&mut r, &w) }).collect();
        let db = gen_db(&mut r);
        let probes: Vec<(String, String)> = (0..8).map(|_| { let q = db.table_names(&mut r); if q.len() == 2 && !r.chance(1, 6) { (q[0].clone(), q[1].clone()) } else { (r.pick(&WORDS).to_string(), r.pick(&WORDS).to_string()) } }).collect();
        c.rng = r;
        c.case(key(&format!("{:?}{:?}", names, db)), steps > 1, || format!("create {:?} in {:?}, describe {:?}", names, db, probes), || {
            let mut real = db.real();
            let show = |d: &Database| -> Vec<(String, String, String)> { d.schemata.iter().map(|(k, v)| (k.as_str().to_string(), v.name.as_str().to_string(), format!("{:?}", v.objects))).collect() };
            let look = |real: &Database| -> Result<(), String> {
                for (s, o) in &probes {
                    let want = db.table(&[s.clone(), o.clone()]);
                    let got = real.describe(&Name::from(s.as_str()), &Name::from(o.as_str())).ok().map(|x| x.columns.iter().map(|c| (c.name.as_str().to_string(), c.data_type, !c.not_null)).collect::<Cols>());
                    if got.as_ref() != want { return Err(format!("describe {:?}.{:?} gives {:?}, not {:?}", s, o, got, want)); }
                    if let Some(x) = real.schemata.get(&Name::from(s.as_str())).and_then(|x| x.objects.get(&Name::from(o.as_str()))) {
                        let rs: Cols = x.row_set().columns.iter().map(|c| (c.name.as_str().to_string(), c.data_type, !c.not_null)).collect();
                        if Some(&rs) != want { return Err("row_set".into()); }
                    }
                }
                Ok(())
            };
            look(&real)?;
            for n in &names {
                let before = show(&real);
                let there = before.iter().any(|x| same(&x.0, n));
                let got = real.create_schema(&Name::from(n.as_str()));
                let after = show(&real);
                if there { if got.is_ok() { return Err(format!("{:?} created twice", n)); } if after != before { return Err(format!("refusing {:?} changed the catalog", n)); } }
                else {
                    if got.is_err() { return Err(format!("{:?} refused", n)); }
                    let new: Vec<_> = after.iter().filter(|x| !before.contains(x)).cloned().collect();
                    if new != vec![(n.clone(), n.clone(), "{}".to_string())] || after.len() != before.len() + 1 || !before.iter().all(|x| after.contains(x)) { return Err(format!("creating {:?}: {:?} became {:?}", n, before, after)); }
                }
                look(&real).map_err(|e| format!("after creating {:?}: {}", n, e))?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- statements
fn near_rows(r: &mut Rng, kinds: &[(DataType, bool)], db: &Db) -> Vec<Vec<E>> {
    let n = if r.chance(1, 60) { 0 } else { 1 + r.below(3) };
    (0..n).map(|_| {
        let mut v: Vec<E> = kinds.iter().map(|k| if r.chance(1, 6) { E::Case(None, vec![(E::Un(2, Box::new(E::Lit(0))), gen_expr(r, 0, k.0, &[], db))], None) } else { let d = r.below(2); gen_expr(r, d, k.0, &[], db) }).collect();
        if r.chance(1, 20) { if r.chance(1, 2) { v.pop(); } else { v.push(E::Lit(1)); } }
        v
    }).collect()
}
pub fn statements(c: &mut Ctx) {
    while c.time_left() {
        let mut r = c.rng.clone();
        let db = gen_db(&mut r);
        let real = db.real();
        for _ in 0..8 {
            let mut tn = db.table_names(&mut r);
            if r.chance(1, 30) { tn = if r.chance(1, 2) { vec!["nope".into()] } else { vec!["a".into(), "b".into(), "t".into()] }; }
            let cols: Cols = db.table(&tn).cloned().unwrap_or_default();
            let dflt = Name::from(db.default.as_str());
            if r.chance(1, 2) {
                // INSERT
                let target: Option<Vec<String>> = if r.chance(1, 2) { None } else {
                    let mut v: Vec<String> = cols.iter().filter(|c| !c.2).map(|c| c.0.clone()).collect();
                    for c in &cols { if c.2 && r.chance(1, 2) { v.push(c.0.clone()) } }
                    for i in 0..v.len() { let j = r.below(v.len()); v.swap(i, j); let s = respell(&mut r, &v[i]); v[i] = s; }
                    if r.chance(1, 12) && !v.is_empty() { let i = r.below(v.len()); if r.chance(1, 2) { v.remove(i); } else { let s = v[i].clone(); v.push(s); } }
                    if r.chance(1, 25) { v.push("nope".into()); }
                    Some(v)
                };
                let find = |n: &String| cols.iter().find(|c| same(&c.0, n));
                let mut kinds: Vec<(DataType, bool)> = match &target { None => cols.iter().map(|c| (c.1, c.2)).collect(), Some(v) => v.iter().map(|n| find(n).map(|c| (c.1, c.2)).unwrap_or((DataType::Numeric, true))).collect() };
                if r.chance(1, 12) { kinds.pop(); } if r.chance(1, 25) { kinds.push((DataType::Numeric, false)); }
                if target.is_none() && r.chance(1, 4) { while kinds.len() > 0 && cols.get(kinds.len() - 1).map(|c| c.2).unwrap_or(false) { kinds.pop(); } }
                let src = if r.chance(1, 3) { let k: Vec<DataType> = kinds.iter().map(|k| k.0).collect(); let d = r.below(3); let any = r.chance(1, 10); gen_q(&mut r, d, if any { None } else { Some(&k) }, &db) } else { Q::Values(near_rows(&mut r, &kinds, &db)) };
                // the model
                let want = (|| {
                    let cols = db.table(&tn)?;
                    let tys: Vec<T> = q_cols(&src, &db)?.into_iter().map(|c| T::S(c.1, c.2)).collect();
                    let targets: Vec<String> = match &target { Some(v) => { if v.len() != tys.len() { return None; } v.clone() } None => { if tys.len() > cols.len() { return None; } cols[..tys.len()].iter().map(|c| c.0.clone()).collect() } };
                    for (i, (n, ty)) in targets.iter().zip(&tys).enumerate() {
                        if targets[..i].iter().any(|m| same(m, n)) { return None; }
                        let c = cols.iter().find(|c| same(&c.0, n))?;
                        match ty { T::S(k, nul) if *k == c.1 && (c.2 || !nul) => (), _ => return None }
                    }
                    for c in cols { if !c.2 && !targets.iter().any(|n| same(n, &c.0)) { return None; } }
                    Some(())
                })().is_some();
                let stmt = ast::Statement::Insert(ast::InsertStatement { table_name: names_of(&tn), columns: target.as_ref().map(|v| names_of(v)), source: Box::new(src.real()) });
                c.case(key(&format!("{:?}{:?}{:?}{:?}", tn, target, src, db)), want, || format!("INSERT INTO {:?} {:?} {:?} in {:?}", tn, target, src, db), || {
                    let got = t::check(&stmt, &real, &dflt);
                    if got.is_ok() != want { Err(format!("accepted: {}, should be: {} ({:?})", got.is_ok(), want, got)) } else { Ok(()) }
                });
            } else if r.chance(1, 4) {
                // DELETE
                let rel: Vec<(String, Cols)> = vec![(tn.last().unwrap().clone(), cols.clone())];
                let wh = if r.chance(4, 5) { let d = r.below(3); let k = if r.chance(1, 8) { *r.pick(&KINDS) } else { DataType::Logical }; Some(Box::new(gen_expr(&mut r, d, k, &rel, &db))) } else { None };
                let want = db.table(&tn).is_some() && logical(&wh, &db, &rel).is_some();
                let stmt = ast::Statement::Delete(ast::DeleteStatement { table_name: names_of(&tn), where_expr: wh.as_ref().map(|w| w.real()) });
                c.case(key(&format!("{:?}{:?}{:?}", tn, wh, db)), want, || format!("DELETE FROM {:?} WHERE {:?} in {:?}", tn, wh, db), || {
                    let got = t::check(&stmt, &real, &dflt);
                    if got.is_ok() != want { Err(format!("accepted: {}, should be: {} ({:?})", got.is_ok(), want, got)) } else { Ok(()) }
                });
            } else {
                // UPDATE
                let rel: Vec<(String, Cols)> = vec![(tn.last().unwrap().clone(), cols.clone())];
                let na = r.below(4);
                let mut assigns: Vec<(Vec<String>, E)> = vec![];
                let mut pool: Vec<usize> = (0..cols.len()).collect();
                for _ in 0..na {
                    if pool.is_empty() { break; }
                    let i = r.below(pool.len()); let i = if r.chance(1, 15) { pool[i] } else { pool.remove(i) };
                    let col = &cols[i];
                    let mut names = vec![respell(&mut r, &col.0)];
                    if r.chance(1, 5) { if let Some(p) = pool.iter().position(|j| cols[*j].1 == col.1) { names.push(cols[pool.remove(p)].0.clone()); } }
                    if r.chance(1, 40) { names.push("nope".into()); }
                    let d = r.below(2);
                    assigns.push((names, gen_expr(&mut r, d, col.1, &rel, &db)));
                }
                let wh = if r.chance(1, 2) { let d = r.below(2); Some(gen_expr(&mut r, d, DataType::Logical, &rel, &db)) } else { None };
                let want = (|| {
                    let cols = db.table(&tn)?;
                    let mut seen: Vec<String> = vec![];
                    for (ns, e) in &assigns {
                        let (k, nul) = match typ(e, &db, &rel)? { T::S(k, n) => (k, n), _ => return None };
                        for n in ns {
                            if seen.iter().any(|m| same(m, n)) { return None; }
                            let c = cols.iter().find(|c| same(&c.0, n))?;
                            if c.1 != k || (nul && !c.2) { return None; }
                            seen.push(n.clone());
                        }
                    }
                    if let Some(w) = &wh { match typ(w, &db, &rel)? { T::S(DataType::Logical, _) => (), _ => return None } }
                    Some(())
                })().is_some();
                let stmt = ast::Statement::Update(ast::UpdateStatement { table_name: names_of(&tn), assignments: assigns.iter().map(|(n, e)| ast::Assignment { columns: names_of(n), expr: e.real() }).collect(), where_expr: wh.as_ref().map(|w| w.real()) });
                c.case(key(&format!("{:?}{:?}{:?}{:?}", tn, assigns, wh, db)), want, || format!("UPDATE {:?} SET {:?} WHERE {:?} in {:?}", tn, assigns, wh, db), || {
                    let got = t::check(&stmt, &real, &dflt);
                    if got.is_ok() != want { Err(format!("accepted: {}, should be: {} ({:?})", got.is_ok(), want, got)) } else { Ok(()) }
                });
            }
        }
        c.rng = r;
    }
}

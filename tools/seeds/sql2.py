import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mk
exec(open("/verif/tools/seeds/sql1.py").read().split("def up(o)")[0])
H += r'''
use cathlamet::sql::verif::ast::{SetExpression as S, TableExpression as T, ResultColumns as RC, ResultColumn as C, SelectStatement, Limit, GroupBy, JoinConstraint};
fn tab(p: &[&str], a: Option<&str>) -> Box<T> { b2(T::Named { name: p.iter().map(|s| n(s)).collect(), alias: a.map(|a| n(a)) }) }
fn b2<A>(a: A) -> Box<A> { Box::new(a) }
fn stm(s: S, limit: Option<Limit>) -> SelectStatement { SelectStatement { common: vec![], expr: b2(s), order_by: vec![], limit } }
fn sub(s: S, a: Option<&str>) -> Box<T> { b2(T::Select { select: stm(s, None), alias: a.map(|a| n(a)) }) }
fn join(l: Box<T>, r: Box<T>, e: Box<E>) -> Box<T> { b2(T::Join { left: l, right: r, op: ast::JoinOperator::Join(ast::JoinType::Inner), constraint: JoinConstraint::Expr(e) }) }
fn q(columns: RC, from: Vec<Box<T>>, where_expr: Option<Box<E>>, group_by: Option<GroupBy>) -> S { S::Query { mode: ast::SelectMode::All, columns, from, where_expr, group_by } }
fn op(l: S, r: S) -> S { S::Op { op: ast::SetOperator::Union, left: b2(l), right: b2(r) } }
fn list(v: Vec<(Box<E>, Option<&str>)>) -> RC { RC::List(v.into_iter().map(|(expr, a)| b2(C::Expr { expr, rename: a.map(|a| n(a)) })).collect()) }
fn yes() -> Box<E> { b(E::Unary { op: ast::UnaryOperator::IsNull, expr: num() }) }
fn rows(s: &S, d: &Database) -> Option<Vec<(String, DataType, bool)>> { t::infer_rows(s, d, &n("s")).ok().map(|c| c.into_iter().map(|(m, t, z)| (m.as_str().to_string(), t, z)).collect()) }
fn names(s: &S, d: &Database) -> Option<String> { rows(s, d).map(|v| v.into_iter().map(|c| c.0).collect::<Vec<_>>().join(" ")) }
fn runs(s: S, l: Option<Limit>, d: &Database) -> bool { t::check(&ast::Statement::Select(stm(s, l)), d, &n("s")).is_ok() }
'''
D = r'''fn d() -> Database { db(&[("t", &[("x", Numeric, true), ("y", Numeric, false)]), ("u", &[("a", Numeric, false), ("w", Varchar, true)]), ("v", &[("k", Numeric, false)])]) }
'''
H += D
mk("p25-offset-null", "P25", [(TY, """            match offset_value.infer_type(&scalar_context)? {
                ScalarType::Scalar {
                    typ: types::DataType::Numeric,
                    is_null: false,""", """            match offset_value.infer_type(&scalar_context)? {
                ScalarType::Scalar {
                    typ: types::DataType::Numeric,
                    is_null: _,""")],
  "a query with an OFFSET that may be NULL", "it is accepted", H + r'''
fn main() { let l = |a, o| Some(Limit { number_rows: a, offset_value: Some(o) }); let s = || q(RC::All, vec![tab(&["t"], None)], None, None); assert!(runs(s(), l(num(), num()), &d())); assert!(!runs(s(), l(maybe(num()), num()), &d())); assert!(!runs(s(), l(num(), maybe(num())), &d())); }
''')
mk("p25-join-order", "P25", [(TY, """                attributes.append(&mut right_attributes);
                Ok((result_context, attributes))""", """                // keep the longer list, and move the columns of the other one
                if attributes.len() < right_attributes.len() {
                    right_attributes.append(&mut attributes);
                    Ok((result_context, right_attributes))
                } else {
                    attributes.append(&mut right_attributes);
                    Ok((result_context, attributes))
                }""")],
  "SELECT * over a join whose right side has more columns than its left side", "the columns come in the wrong order", H + r'''
fn main() { assert_eq!(names(&q(RC::All, vec![join(tab(&["t"], None), tab(&["v"], None), yes())], None, None), &d()).unwrap(), "x y k"); assert_eq!(names(&q(RC::All, vec![join(tab(&["v"], None), tab(&["t"], None), yes())], None, None), &d()).unwrap(), "k x y"); }
''')
mk("p25-having-null", "P25", [(TY, """                            &Some(ref having) => match having.infer_type(&scalar_context)? {
                                ScalarType::Scalar {
                                    typ: types::DataType::Logical,
                                    is_null: _,
                                } => (),""", """                            &Some(ref having) => match having.infer_type(&scalar_context)? {
                                ScalarType::Scalar {
                                    typ: types::DataType::Logical,
                                    is_null: _,
                                } => (),
                                ScalarType::Scalar { is_null: true, .. } => (),""")],
  "HAVING with a condition of another type that may be NULL", "it is accepted", H + r'''
fn main() { let g = |h| Some(GroupBy { groupings: vec![col(&["y"])], having: Some(h) }); let s = |h| q(RC::All, vec![tab(&["t"], None)], None, g(h)); assert!(runs(s(yes()), None, &d())); assert!(!runs(s(col(&["y"])), None, &d())); assert!(!runs(s(col(&["x"])), None, &d())); }
''')
mk("p25-qualifier", "P25", [(TY, """                    &None => name.last().unwrap().clone(),
                };

                // register""", """                    &None => name.first().unwrap().clone(),
                };

                // register""")],
  "a table of FROM that is named with its schema and has no alias", "its columns are known under the name of the schema", H + r'''
fn main() { let s = |p: &[&str]| q(list(vec![(col(&["t", "x"]), Some("c"))]), vec![tab(p, None)], None, None); assert_eq!(names(&s(&["t"]), &d()).unwrap(), "c"); assert_eq!(names(&s(&["s", "t"]), &d()).unwrap(), "c"); }
''')
mk("p25-union-null", "P25", [(TY, """                        let right_attr_type = ScalarType::Scalar {
                            typ: right_attr.typ,
                            is_null: right_attr.is_null,
                        };""", """                        let right_attr_type = ScalarType::Scalar {
                            typ: right_attr.typ,
                            is_null: left_attr.is_null,
                        };""")],
  "a set operation whose right operand may be NULL where the left one may not", "the column is said to be never NULL", H + r'''
fn main() { let s = |c: &str| q(list(vec![(col(&[c]), Some("c"))]), vec![tab(&["t"], None)], None, None); for (a, z, r) in [("x", "y", true), ("y", "x", true), ("y", "y", false)] { assert_eq!(rows(&op(s(a), s(z)), &d()).unwrap()[0].2, r); } }
''')
mk("p25-group-unknown", "P25", [(TY, """                            clause.infer_type(&scalar_context)?;
""", """                            if opt_having.is_some() {
                                clause.infer_type(&scalar_context)?;
                            }
""")],
  "GROUP BY, without HAVING, over an unknown name", "the query is accepted", H + r'''
fn main() { let s = |c: &str, h| q(RC::All, vec![tab(&["t"], None)], None, Some(GroupBy { groupings: vec![col(&["y"]), col(&[c])], having: h })); assert!(runs(s("x", None), None, &d())); assert!(!runs(s("z", Some(yes())), None, &d())); assert!(!runs(s("z", None), None, &d())); }
''')
mk("p25-values-width", "P25", [(TY, """                        let name = symbols::Name::from(format!("_col{}", count));
                        let expr_type""", """                        let name = symbols::Name::from(format!("_col{}", count % 10));
                        let expr_type""")],
  "VALUES with more than ten columns", "the eleventh column has the name of the first", H + r'''
fn main() { for w in [1, 9, 10, 11, 12] { let v = S::Values(vec![(0..w).map(|_| num()).collect()]); let c = rows(&v, &d()).unwrap(); for i in 0..w { for j in 0..i { assert!(c[i].0 != c[j].0); } } } }
''')
mk("p25-primary-key", "P25", [(TY, "                is_null: !column.not_null,", "                is_null: !column.not_null && !column.primary_key,")],
  "a primary key column that was not declared NOT NULL", "queries over it say it is never NULL", H + r'''
fn main() { let mut e = d(); if let SchemaObject::Table(t) = e.schemata.get_mut(&n("s")).unwrap().objects.get_mut(&n("t")).unwrap() { t.rows.columns[0].primary_key = true; } else { panic!() } let s = q(RC::All, vec![tab(&["t"], None)], None, None); let r = rows(&s, &e).unwrap(); assert_eq!((r[0].2, r[1].2), (true, false)); }
''')
mk("p25-star-name", "P25", [(TY, """            &ResultColumns::All => for attribute in attributes {""", """            &ResultColumns::All if attributes.is_empty() => {
                return Err(Error::from("SELECT * needs a table"))
            }
            &ResultColumns::All => for attribute in attributes {""")],
  "SELECT * over tables with no column", "the query is refused", H + r'''
fn main() { let e = db(&[("t", &[]), ("u", &[("a", Numeric, false)])]); let s = |p: &str| q(RC::All, vec![tab(&[p], None)], None, None); assert_eq!(names(&s("u"), &e).unwrap(), "a"); assert_eq!(names(&s("t"), &e).unwrap(), ""); }
''')
mk("p21-delete-qualifier", "P21", [(TY, """        let identifier = self.table_name.last().unwrap().clone();
        let mut scalar_context = ScalarContext::new(&context);
        scalar_context.add_relation(identifier, row_type.attributes.clone())?;

        match""", """        let identifier = self.table_name[0].clone();
        let mut scalar_context = ScalarContext::new(&context);
        scalar_context.add_relation(identifier, row_type.attributes.clone())?;

        match""")],
  "DELETE from a table named with its schema, with a condition over a qualified column", "it is refused", H + r'''
fn main() { let s = |p: &[&str]| ast::Statement::Delete(ast::DeleteStatement { table_name: p.iter().map(|s| n(s)).collect(), where_expr: Some(b(E::Unary { op: ast::UnaryOperator::IsNull, expr: col(&["t", "x"]) })) }); assert!(t::check(&s(&["t"]), &d(), &n("s")).is_ok()); assert!(t::check(&s(&["s", "t"]), &d(), &n("s")).is_ok()); }
''')

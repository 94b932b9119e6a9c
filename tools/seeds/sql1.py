import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mk
H = r'''#![allow(dead_code, unused_imports)]
use cathlamet::sql::verif::ast::typing::{verif as t, ScalarType};
use cathlamet::sql::verif::ast::{self, Expression as E, Literal};
use cathlamet::sql::verif::schema::*;
use cathlamet::sql::verif::symbols::Name;
use cathlamet::sql::verif::types::DataType::{self, *};
fn n(s: &str) -> Name { Name::from(s) }
fn b(e: E) -> Box<E> { Box::new(e) }
fn col(q: &[&str]) -> Box<E> { b(E::QualifiedIdentifier(q.iter().map(|s| n(s)).collect())) }
fn num() -> Box<E> { b(E::Literal(Literal::NumericLiteral("1".into()))) }
fn st() -> Box<E> { b(E::Literal(Literal::StringLiteral("x".into()))) }
fn maybe(e: Box<E>) -> Box<E> { b(E::Case { expr: None, when_part: vec![ast::WhenClause { guard: b(E::Unary { op: ast::UnaryOperator::IsNull, expr: num() }), body: e }], else_part: None }) }
fn db(tables: &[(&str, &[(&str, DataType, bool)])]) -> Database { let mut d = Database::new(); d.create_schema(&n("s")).unwrap(); let s = d.schemata.get_mut(&n("s")).unwrap();
  for (tn, cols) in tables { s.objects.insert(n(tn), SchemaObject::Table(Table { name: n(tn), rows: RowSet { columns: cols.iter().map(|c| Column { name: n(c.0), not_null: !c.2, primary_key: false, data_type: c.1 }).collect() }, primary_key: vec![] })); } d }
fn rel(s: &str, cols: &[(&str, DataType, bool)]) -> (Name, t::Columns) { (n(s), cols.iter().map(|c| (n(c.0), c.1, c.2)).collect()) }
fn typ(e: &E, rels: &[(Name, t::Columns)]) -> Option<(DataType, bool)> { match t::infer(e, &db(&[]), &n("s"), rels).unwrap() { Ok(ScalarType::Scalar { typ, is_null }) => Some((typ, is_null)), Ok(_) => panic!("tuple"), Err(_) => None } }
fn insert(d: &Database, cols: Option<&[&str]>, rows: Vec<Vec<Box<E>>>) -> bool { t::check(&ast::Statement::Insert(ast::InsertStatement { table_name: vec![n("t")], columns: cols.map(|v| v.iter().map(|s| n(s)).collect()), source: Box::new(ast::SetExpression::Values(rows)) }), d, &n("s")).is_ok() }
fn update(d: &Database, sets: Vec<(&[&str], Box<E>)>, w: Option<Box<E>>) -> bool { t::check(&ast::Statement::Update(ast::UpdateStatement { table_name: vec![n("t")], assignments: sets.into_iter().map(|(c, e)| ast::Assignment { columns: c.iter().map(|s| n(s)).collect(), expr: e }).collect(), where_expr: w }), d, &n("s")).is_ok() }
fn sc(typ: DataType, is_null: bool) -> ScalarType { ScalarType::Scalar { typ, is_null } }
'''
TY = "sql/ast/typing.rs"; SY = "sql/symbols.rs"; SC = "sql/schema.rs"
def up(o): return f"""        let self_iter = self.string.chars().flat_map(|c| c.to_uppercase());
        let other_iter = other.{o}chars().flat_map(|c| c.to_uppercase());
"""
mk("p17-first-char", "P17", [(SY, "    fn cmp(&self, other: &Name) -> Ordering {\n" + up("string."), "    fn cmp(&self, other: &Name) -> Ordering {\n" + up("string.").replace("c.to_uppercase()", "c.to_uppercase().take(2)"))],
  "a character whose upper-case form has three characters", "two names equal by == are different keys of a map, or the other way round", H + r'''
fn main() { let (a, b) = (n("\u{fb03}x"), n("FFIX")); assert!(a == b); assert_eq!(a.cmp(&b), std::cmp::Ordering::Equal); }
''')
mk("p17-same-length", "P17", [(SY, "    fn eq(&self, other: &Name) -> bool {\n" + up("string."), "    fn eq(&self, other: &Name) -> bool {\n        if self.string.len() != other.string.len() {\n            return false;\n        }\n\n" + up("string."))],
  "two spellings of one name of different byte lengths", "they are no longer the same name", H + r'''
fn main() { let (a, b) = (n("stra\u{df}e \u{131}"), n("STRASSE I")); assert_eq!(a.cmp(&b), std::cmp::Ordering::Equal); assert!(a == b); }
''')
mk("p17-lower-order", "P17", [(SY, "    fn cmp(&self, other: &Name) -> Ordering {\n" + up("string."), "    fn cmp(&self, other: &Name) -> Ordering {\n" + up("string.").replace("to_uppercase", "to_lowercase"))],
  "characters that share an upper-case form but not a lower-case one, or an underscore against a letter", "the order of names disagrees with their equality", H + r'''
fn main() { let (a, b) = (n("\u{17f}um"), n("SUM")); assert!(a == b); assert_eq!(a.cmp(&b), std::cmp::Ordering::Equal); assert_eq!(n("a_").partial_cmp(&n("ab")), Some(n("a_").cmp(&n("ab")))); }
''')
mk("p18-last-component", "P18", [(TY, "                            Ok(result.unwrap() | item_result.unwrap())", "                            item_result")],
  "a tuple with a nullable component before its last", "comparing it is said to be never NULL", H + r'''
fn main() { let a = ScalarType::Tuple(vec![sc(Numeric, true), sc(Numeric, false)]); let b = ScalarType::Tuple(vec![sc(Numeric, false), sc(Numeric, false)]); assert_eq!(t::is_compatible(&a, &b).unwrap(), true); }
''')
mk("p18-short-left", "P18", [(TY, """                if tuple1.len() != tuple2.len() {
                    return Err(Error::from(
                        "Incompatible tuple types due to different lengths",
                    ));
                }

                let components""", """                if tuple1.len() > tuple2.len() {
                    return Err(Error::from(
                        "Incompatible tuple types due to different lengths",
                    ));
                }

                let components""")],
  "combining a tuple with a longer one, in this order", "the longer tuple is cut off", H + r'''
fn main() { let a = ScalarType::Tuple(vec![sc(Numeric, true)]); let b = ScalarType::Tuple(vec![sc(Numeric, false), sc(Numeric, false)]); assert!(t::unify(&b, &a).is_err()); assert!(t::unify(&a, &b).is_err()); }
''')
mk("p19-third-conflict", "P19", [(TY, """                Some(&ScalarContextSymbol::AttributeConflict) => (),
                Some(&ScalarContextSymbol::Relation(_)) => (),
            }
        }
""", """                Some(&ScalarContextSymbol::AttributeConflict) => {
                    mem::drop(self.symbols.remove(&attribute.name))
                }
                Some(&ScalarContextSymbol::Relation(_)) => (),
            }
        }
""")],
  "four relations with a column of one name", "the ambiguous name is accepted and stands for the column of the last", H + r'''
fn main() { let r: Vec<_> = ["a", "b", "c", "d"].iter().map(|s| rel(s, &[("x", Numeric, false)])).collect(); for i in 2..5 { assert_eq!(typ(&col(&["x"]), &r[..i]), None); } }
''')
mk("p19-between-upper", "P19", [(TY, "                        if typ1 == typ2 && typ1 == typ3 && typ1.is_ordered() {\n                            Ok(ScalarType::Scalar {\n                                typ: types::DataType::Logical,\n                                is_null: null1 | null2 | null3,", "                        if typ1 == typ2 && typ2 == typ3 && typ1.is_ordered() {\n                            Ok(ScalarType::Scalar {\n                                typ: types::DataType::Logical,\n                                is_null: null1 | (null2 & null3),")],
  "BETWEEN with one bound that may be NULL", "the test is said to be never NULL", H + r'''
fn main() { let r = [rel("a", &[("x", Numeric, true)])]; let e = |l, u| E::Between { expr: num(), lower: l, upper: u }; assert_eq!(typ(&e(num(), col(&["x"])), &r), Some((Logical, true))); assert_eq!(typ(&e(col(&["x"]), num()), &r), Some((Logical, true))); assert_eq!(typ(&e(num(), num()), &r), Some((Logical, false))); }
''')
mk("p19-in-list", "P19", [(TY, """                let value_type = iter.fold(initial_type, |typ, expr| {
                    let expr_type = expr.infer_type(&context)?;
                    typ?.unify(&expr_type)
                })?;""", """                let value_type = iter.fold(initial_type, |typ, expr| {
                    let expr_type = expr.infer_type(&context)?;
                    let typ = typ?;
                    typ.is_compatible(&expr_type)?;
                    Ok(typ)
                })?;""")],
  "IN over a list whose later value may be NULL", "the test is said to be never NULL", H + r'''
fn main() { let r = [rel("a", &[("x", Numeric, true)])]; let e = |v| E::In { expr: num(), set: ast::SetSpecification::List(v) }; assert_eq!(typ(&e(vec![num(), col(&["x"])]), &r), Some((Logical, true))); assert_eq!(typ(&e(vec![num()]), &r), Some((Logical, false))); }
''')
mk("p19-relation-name", "P19", [(TY, "                _ => Err(Error::from(format!(\n                    \"Name '{}' does not refer to a relation\",", "                Some(_) => self.infer_type(&qualified_name[1..]),\n                None => Err(Error::from(format!(\n                    \"Name '{}' does not refer to a relation\",")],
  "a name qualified with something that is not a relation but a column in scope", "the name is looked up without its qualifier instead of being refused", H + r'''
fn main() { let r = [rel("a", &[("x", Numeric, true), ("y", Numeric, true)])]; assert_eq!(typ(&col(&["x", "y"]), &r), None); assert_eq!(typ(&col(&["b", "y"]), &r), None); assert_eq!(typ(&col(&["a", "y"]), &r), Some((Numeric, true))); }
''')
mk("p20-spelling", "P20", [(SC, "        if self.schemata.contains_key(schema_name) {", "        if self\n            .schemata\n            .values()\n            .any(|schema| schema.name.as_str() == schema_name.as_str())\n        {")],
  "creating a schema under another spelling of a name in use", "the existing schema is replaced by an empty one", H + r'''
fn main() { let mut d = db(&[("t", &[("x", Numeric, true)])]); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.create_schema(&n("S")).is_err())); assert_eq!(r.ok(), Some(true)); assert!(d.describe(&n("s"), &n("t")).is_ok()); }
''')
mk("p20-other-object", "P20", [(SC, "        let object = schema.objects.get(object_name).ok_or(", "        let object = schema.objects.range(object_name..).next().map(|entry| entry.1).ok_or(")],
  "describing an object that does not exist in a schema with a later one", "the next object is described instead of an error", H + r'''
fn main() { let d = db(&[("t", &[("x", Numeric, true)])]); assert!(d.describe(&n("s"), &n("t")).is_ok()); assert!(d.describe(&n("s"), &n("z")).is_err()); assert!(d.describe(&n("s"), &n("a")).is_err()); }
''')
mk("p21-required-by-position", "P21", [(TY, "        for (ref name, &(_, ref is_null)) in &row_type_map {\n            if !is_null {", "        for (ref name, &(_, ref is_null)) in &row_type_map {\n            if !is_null && self.columns.is_some() {")],
  "INSERT without a column list and with fewer values than columns", "a column that may not be NULL gets no value", H + r'''
fn main() { let d = db(&[("t", &[("x", Numeric, true), ("y", Numeric, false)])]); assert!(!insert(&d, None, vec![vec![num()]])); assert!(insert(&d, None, vec![vec![num(), num()]])); assert!(!insert(&d, Some(&["x"]), vec![vec![num()]])); }
''')
mk("p21-two-assignments", "P21", [(TY, """        let mut assigned_columns = collections::BTreeSet::new();

        for assignment in &self.assignments {
            match""", """        for assignment in &self.assignments {
            let mut assigned_columns = collections::BTreeSet::new();

            match""")],
  "a column assigned in two different assignments", "the duplicate is accepted", H + r'''
fn main() { let d = db(&[("t", &[("x", Numeric, true), ("y", Numeric, false)])]); assert!(update(&d, vec![(&["x"], num()), (&["y"], num())], None)); assert!(!update(&d, vec![(&["x"], num()), (&["y", "X"], num())], None)); assert!(!update(&d, vec![(&["x", "X"], num())], None)); }
''')
mk("p21-later-rows", "P21", [(TY, "                        fold_err(Vec::new(), types.iter().zip(vals.iter()), |mut vec, (a, b)| {", "                        fold_err(Vec::new(), types.iter().zip(vals.iter()), |mut vec, (a, b)| {")] if False else [(TY, """                            if *column_type != typ || (is_null && !colummn_is_null) {""", """                            if *column_type != typ || (is_null && !colummn_is_null && assigned_columns.is_empty()) {""")],
  "a nullable value assigned to the second or a later column", "a column that may not be NULL can become NULL", H + r'''
fn main() { let d = db(&[("t", &[("x", Numeric, true), ("y", Numeric, false)])]); assert!(update(&d, vec![(&["x"], maybe(num()))], None)); assert!(!update(&d, vec![(&["y"], maybe(num()))], None)); assert!(!update(&d, vec![(&["x", "y"], maybe(num()))], None)); }
''')
mk("p21-null-required", "P21", [(TY, """                    match &row_type_map.get(name) {
                        &None => {
                            return Err(Error::from(format!(
                                "Column '{}' not defined in table '{:?}'",
                                &name, &self.table_name
                            )))
                        }
                        &Some(&(ref typ, ref is_null)) => {
                            if *typ != attribute.typ || (!*is_null && attribute.is_null) {""", """                    match &row_type_map.get(name) {
                        &None => {
                            return Err(Error::from(format!(
                                "Column '{}' not defined in table '{:?}'",
                                &name, &self.table_name
                            )))
                        }
                        &Some(&(ref typ, ref is_null)) => {
                            if *typ != attribute.typ || (*is_null < attribute.is_null && columns.len() < row_type.attributes.len()) {""")],
  "INSERT listing every column, with a value that may be NULL", "a column that may not be NULL can become NULL", H + r'''
fn main() { let d = db(&[("t", &[("x", Numeric, true), ("y", Numeric, false)])]); assert!(insert(&d, Some(&["y", "x"]), vec![vec![num(), maybe(num())]])); assert!(!insert(&d, Some(&["y", "x"]), vec![vec![maybe(num()), num()]])); assert!(!insert(&d, Some(&["y"]), vec![vec![maybe(num())]])); }
''')

== type sc Column
== type sc RowSet
== type sc Table
== type sc View
== type sc SchemaObject
== type sc Schema
== type sc Database
== text
// the derived Clone
impl Clone for RowSet { #[verifier::external_body] fn clone(&self) -> (r: RowSet) ensures r.columns@ == self.columns@ { panic!() } }
pub open spec fn rows_of(o: SchemaObject) -> Seq<Column> { match o { SchemaObject::Table(t) => t.rows.columns@, SchemaObject::View(v) => v.rows.columns@ } }
pub open spec fn found(d: Database, s: Key, o: Key) -> bool { d.schemata@.contains_key(s) && d.schemata@[s].objects@.contains_key(o) }

import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mk
mk("p10-short-first", "P10", [("core/types/mod.rs", "            } else if self.0[index] > rhs.0[index] {\n                return cmp::Ordering::Greater;\n            }\n        }\n\n        return self.0.len().cmp(&rhs.0.len());", "            } else if self.0[index] > rhs.0[index] {\n                return cmp::Ordering::Greater;\n            }\n\n            if index == 7 {\n                break;\n            }\n        }\n\n        return self.0.len().cmp(&rhs.0.len());")],
  "two paths of equal length that agree in their first eight positions", "paths deeper than eight levels that differ only further down compare as equal", r'''
use cathlamet::core::types::Path;
fn p(v: &[usize]) -> Path { let mut r = Path::create_empty(); for x in v { r = r.with_component(*x) } r }
fn main() { assert!(p(&[1; 9]).cmp(&p(&[1, 1, 1, 1, 1, 1, 1, 1, 2])) == std::cmp::Ordering::Less); }
''')
mk("p10-narrow-compare", "P10", [("core/types/mod.rs", "        &self.0[..] == &other.0[0..self.0.len()]", "        self.0.iter().zip(&other.0).all(|(a, b)| *a as u32 == *b as u32)")],
  "positions that agree in their low 32 bits only", "a path is taken for a prefix of another whose positions differ above bit 32", r"""
use cathlamet::core::types::Path;
fn p(v: &[usize]) -> Path { let mut r = Path::create_empty(); for x in v { r = r.with_component(*x) } r }
fn main() { assert!(!p(&[1, 2]).is_prefix_of(&p(&[1, (1 << 32) + 2, 3]))); assert!(p(&[1, 2, 3]).is_prefix_of(&p(&[1, 2, 3, 4]))); }
""")
mk("p11-last-label", "P11", [("core/types/mod.rs", """fn find_field_index(fields: &Fields, label: &str) -> Option<usize> {
    for index in 0..fields.len() {
        if fields[index].label == label {
            return Some(index);
        }
    }

    None""", """fn find_field_index(fields: &Fields, label: &str) -> Option<usize> {
    let mut found = None;

    for index in 0..fields.len() {
        if fields[index].label == label {
            found = Some(index);
        }
    }

    found""")],
  "a struct with the same label twice", "a repeated label names the last field instead of the first", r'''
use cathlamet::core::types::*;
fn main() { let f = |k| Field { label: "a".into(), typ: Box::new(Type { kind: k }) }; let t = Type { kind: Kind::Struct(vec![f(Kind::Unit), f(Kind::String)]) };
 assert_eq!(Path::resolve_qualified_name(&t, "a").unwrap().path(), &[0]); }
''')
mk("p11-tuple-bound", "P11", [("core/types/mod.rs", "Ok(index) if index < elements.len() => {", "Ok(index) if index <= elements.len() && !elements.is_empty() => {")],
  "a dotted name asking for the position just past the end of a tuple", "resolving such a name crashes instead of refusing", r'''
use cathlamet::core::types::*;
fn main() { let t = Type { kind: Kind::Tuple(vec![Box::new(Type { kind: Kind::Unit })]) }; assert!(Path::resolve_qualified_name(&t, "1").is_err()); }
''')
mk("p12-keep-first", "P12", [("core/data_source.rs", "        self.values.insert(path.clone(), value::Value::CaseTag(val));", "        self.values.entry(path.clone()).or_insert(value::Value::CaseTag(val));")],
  "a case tag stored at a path that already holds a value", "the earlier value stays", r'''
use cathlamet::core::{types::Path, data_source::*};
fn main() { let p = Path::create_empty(); let mut d = IntermediateDataSource::new(); d.add_case_tag(&p, 1); d.add_case_tag(&p, 2); assert_eq!(d.get_case_tag(&p), 2); }
''')
mk("p12-chars", "P12", [("core/data_source.rs", "value::Value::String(val) => val.len(),", "value::Value::String(val) => val.chars().count(),")],
  "a stored string with a character outside ASCII", "the length reported is not that of the bytes", r'''
use cathlamet::core::{types::Path, data_source::*};
fn main() { let p = Path::create_empty(); let mut d = IntermediateDataSource::new(); d.add_string(&p, "h\u{e9}"); assert_eq!(d.get_length(&p), d.get_bytes(&p).len()); assert_eq!(d.get_length(&p), 3); }
''')

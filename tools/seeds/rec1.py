import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mk
H = r'''use cathlamet::core::{types::*, data_source::*, value::PrimitiveValue, marshaller::*};
use std::sync::Arc;
#[allow(dead_code)] fn t(k: Kind) -> Box<Type> { Box::new(Type { kind: k }) }
#[allow(dead_code)] fn at(v: &[usize]) -> Path { let mut r = Path::create_empty(); for x in v { r = r.with_component(*x) } r }
#[allow(dead_code)] fn cases(n: usize) -> Box<Type> { t(Kind::Enum((0..n).map(|i| Case { label: format!("c{}", i), typ: t(Kind::Unit) }).collect())) }
#[allow(dead_code)] fn enc(t: &Type, d: &IntermediateDataSource) -> (Marshaller, Vec<u8>) { let m = Marshaller::new(Arc::new(Layout::new(t))); let mut b = vec![0xaa; m.encoding_size(d) + 16]; m.encode(d, &mut b); (m, b) }
'''
mk("p03-long-string", "P03", [("core/marshaller.rs", "offset = offset + length as usize as usize;", "offset = offset + length as u16 as usize;")],
  "a string of 65536 bytes or more in front of another string", "the later string is read from the wrong place", H + r'''
fn main() { let ty = t(Kind::Tuple(vec![t(Kind::String), t(Kind::String)])); let mut d = IntermediateDataSource::new(); d.add_string(&at(&[0]), &"x".repeat(65537)); d.add_string(&at(&[1]), "hello"); let (m, b) = enc(&ty, &d); assert_eq!(m.get_bytes(&b, &at(&[1])), b"hello"); }
''')
mk("p03-nested-offset", "P03", [("core/marshaller.rs", "                    offset = offset + case_size;", "                    offset = offset + if cases[case_tag].var_size_fields.len() > 1 { case_size - case_size % cases[case_tag].alignment.max(2) } else { case_size };")],
  "an enum case holding two strings of odd total length, followed by another variable-size element", "the element after it is read one byte early", H + r'''
fn main() { let ty = t(Kind::Tuple(vec![t(Kind::Enum(vec![Case { label: "a".into(), typ: t(Kind::Tuple(vec![t(Kind::String), cases(1), t(Kind::String)])) }])), t(Kind::String)]));
 for n in 0..9 { let mut d = IntermediateDataSource::new(); d.add_case_tag(&at(&[0]), 0); d.add_string(&at(&[0, 0, 0]), &"x".repeat(n)); d.add_case_tag(&at(&[0, 0, 1]), 0); d.add_string(&at(&[0, 0, 2]), "b"); d.add_string(&at(&[1]), "hello"); let (m, b) = enc(&ty, &d); assert_eq!(m.get_bytes(&b, &at(&[1])), b"hello"); } }
''')
mk("p03-wide-tag", "P03", [("core/marshaller.rs", "    } else if num_bits > 8 {\n        types::Primitive::U16", "    } else if num_bits > 9 {\n        types::Primitive::U16")],
  "an enum with 257 to 512 cases", "its tag gets an eight bit container and the high bit is lost (or the layout cannot be computed)", H + r'''
fn main() { let ty = cases(300); let mut d = IntermediateDataSource::new(); d.add_case_tag(&at(&[]), 290); let (m, b) = enc(&ty, &d); assert_eq!(m.get_case_tag(&b, &at(&[])), 290); }
''')
mk("p04-pad-eight", "P04", [("core/marshaller.rs", """                    offset += cases[case_tag].encoding_size_with_source(source);
                }
            }
        }

        util::align(offset, self.alignment)
    }
}""", """                    offset += cases[case_tag].encoding_size_with_source(source);
                }
            }
        }

        // clear the padding
        let end = cmp::min(util::align(offset, 8), buffer.len());
        for byte in &mut buffer[offset..end] {
            *byte = 0;
        }

        util::align(offset, self.alignment)
    }
}""")],
  "a record of alignment below eight in a larger buffer", "bytes after the end of the record are overwritten", H + r'''
fn main() { let ty = t(Kind::String); let mut d = IntermediateDataSource::new(); d.add_string(&at(&[]), "abc"); let (m, b) = enc(&ty, &d); for x in &b[m.encoding_size(&d)..] { assert_eq!(*x, 0xaa); } }
''')
mk("p04-source-size", "P04", [("core/marshaller.rs", """                    let length = source.get_length(&field.path);
                    offset += length;
                }""", """                    let length = source.get_length(&field.path);
                    offset += cmp::max(length, 1);
                }""")],
  "an empty string among the variable-size elements", "the announced size differs from the size used", H + r'''
fn main() { let ty = t(Kind::String); let mut d = IntermediateDataSource::new(); d.add_string(&at(&[]), ""); let m = Marshaller::new(Arc::new(Layout::new(&ty))); let mut b = vec![0; 64]; assert_eq!(m.encoding_size(&d), m.encode(&d, &mut b)); let ty = t(Kind::Tuple(vec![t(Kind::Enum(vec![Case { label: "a".into(), typ: t(Kind::String) }])), t(Kind::String)])); let m = Marshaller::new(Arc::new(Layout::new(&ty))); for n in 0..9 { let mut d = IntermediateDataSource::new(); d.add_case_tag(&at(&[0]), 0); d.add_string(&at(&[0, 0]), ""); d.add_string(&at(&[1]), &"x".repeat(n)); let mut b = vec![0; 64]; assert_eq!(m.encoding_size(&d), m.encode(&d, &mut b)); } }
''')
mk("p05-capacity", "P05", [("core/marshaller.rs", "capacity.push(primitive.encoding_size() * 8 - num_bits);", "capacity.push(primitive.encoding_size() * 8 - (num_bits & !1));")],
  "several enums with tags of three bits (or another odd width)", "the last tag of a container hangs over its end and overwrites the next element", H + r'''
fn main() { let ty = t(Kind::Tuple(vec![cases(8), cases(8), cases(8)])); let mut d = IntermediateDataSource::new(); for i in 0..3 { d.add_case_tag(&at(&[i]), 7); } let (m, b) = enc(&ty, &d); for i in 0..3 { assert_eq!(m.get_case_tag(&b, &at(&[i])), 7); } }
''')
mk("p05-container-order", "P05", [("core/marshaller.rs", "            FixedSizeFieldKind::BitfieldContainer { primitive, .. } => primitive.encoding_size(),\n            FixedSizeFieldKind::Bitfield { primitive, .. } => primitive.encoding_size(),", "            FixedSizeFieldKind::BitfieldContainer { primitive, .. } => primitive.encoding_size(),\n            FixedSizeFieldKind::Bitfield { primitive, .. } => primitive.encoding_size(),"), ]
  if False else [("core/marshaller.rs", "        field.offset = size;\n        size += field.kind.encoding_size();", "        field.offset = size;\n        size += match field.kind {\n            FixedSizeFieldKind::BitfieldContainer { primitive, .. } => cmp::min(primitive.encoding_size(), 2),\n            _ => field.kind.encoding_size(),\n        };")],
  "an enum with more than 65536 cases next to another fixed-size element", "the four byte container of its tag overlaps the next element", H + r'''
fn main() { let ty = t(Kind::Tuple(vec![cases(70000), t(Kind::Primitive(Primitive::U32)), t(Kind::Primitive(Primitive::U16))])); let mut d = IntermediateDataSource::new(); d.add_case_tag(&at(&[0]), 69999); d.add_primitive(&at(&[1]), PrimitiveValue::U32(0x01020304)); d.add_primitive(&at(&[2]), PrimitiveValue::U16(0x0506)); let (m, b) = enc(&ty, &d); assert_eq!(m.get_case_tag(&b, &at(&[0])), 69999); assert_eq!(m.get_primitive::<u32>(&b, &at(&[1])), 0x01020304); assert_eq!(m.get_primitive::<u16>(&b, &at(&[2])), 0x0506); }
''')

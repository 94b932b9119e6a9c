import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mk
H = "use cathlamet::core::{types::*, data_source::*, json::{encoder::JsonEncoder, decoder::JsonDecoder}};\n#[allow(dead_code)] fn t(k: Kind) -> Box<Type> { Box::new(Type { kind: k }) }\n#[allow(dead_code)] fn root() -> Path { Path::create_empty() }\n#[allow(dead_code)] fn write(t: &Type, d: &IntermediateDataSource) -> Vec<u8> { let mut o = Vec::new(); JsonEncoder::new(t).encode(&mut o, d).unwrap(); o }\n#[allow(dead_code)] fn read(t: &Type, s: &str) -> Result<IntermediateDataSource, String> { let mut d = IntermediateDataSource::new(); JsonDecoder::new(t).parse(s, &mut d)?; Ok(d) }\n"
mk("p06-plane16", "P06", [("core/json/encoder.rs", "(b4 as u32 >> 18) as u8 & 0x07u8 | 0xf0u8", "(b4 as u32 >> 18) as u8 & 0x03u8 | 0xf0u8")],
  "a character from U+100000 on", "the character is written as another byte sequence, which is not UTF-8", H + r'''
fn main() { let mut d = IntermediateDataSource::new(); d.add_string(&root(), "a\u{10abcd}b"); let o = write(&t(Kind::String), &d); assert_eq!(o, "\"a\u{10abcd}b\"".as_bytes()); }
''')
mk("p06-bound", "P06", [("core/json/encoder.rs", "b2 if value as u32 >= 0x80 && value as u32 <= 0x7ff => {", "b2 if value as u32 >= 0x80 && (value as u32) < 0x7ff => {")],
  "the character U+07FF", "it is written in four bytes", H + r'''
fn main() { let mut d = IntermediateDataSource::new(); d.add_string(&root(), "\u{7ff}"); let o = write(&t(Kind::String), &d); assert_eq!(o, "\"\u{7ff}\"".as_bytes()); }
''')
mk("p07-keyword-digit", "P07", [("core/json/tokenizer.rs", "Some((_, ch)) if ch.is_alphanumeric() => {", "Some((_, ch)) if ch.is_alphabetic() => {")],
  "a keyword directly followed by a digit", "true1 is read as the token true", H + r'''
use cathlamet::core::json::tokenizer::Tokenizer;
fn main() { assert!(Tokenizer::new("true1").is_err()); assert!(Tokenizer::new("null\u{663}").is_err()); assert!(Tokenizer::new("true").is_ok()); }
''')
mk("p07-raw-control", "P07", [("core/json/tokenizer.rs", "ch if ch <= 0x1fu8 as char => break,", "ch if ch < 0x1fu8 as char => break,")],
  "a raw U+001F inside a string", "the control character is accepted", H + r'''
use cathlamet::core::json::tokenizer::Tokenizer;
fn main() { assert!(Tokenizer::new("\"a\u{1f}\"").is_err()); assert!(Tokenizer::new("\"a\u{20}\"").is_ok()); }
''')
mk("p07-range-after-number", "P07", [("core/json/tokenizer.rs", "        if self.token == Token::String {\n            self.string_buffer.as_str()", "        if self.token == Token::String || self.value_range.is_empty() {\n            self.string_buffer.as_str()"), ("core/json/tokenizer.rs", "        self.value_range = self.value_range.start..pos;", "        self.value_range = self.value_range.start..if self.look_ahead.is_none() && self.string_buffer.is_empty() == false { pos - 1 } else { pos };")],
  "a number at the very end of the text, after a string", "the last digit of the number is missing from its value", H + r'''
use cathlamet::core::json::tokenizer::Tokenizer;
fn main() { let mut k = Tokenizer::new("\"a\" 123").unwrap(); k.next().unwrap(); assert_eq!(k.value(), "123"); }
''')
mk("p08-raw-label", "P08", [("core/json/encoder.rs", "            emit_utf8_string(writer, name.as_str())?;\n            writer.write_all(\":\".as_bytes())?;", "            write!(writer, \"\\\"{}\\\":\", name)?;")],
  "a struct field whose label contains a quote or backslash", "the label is written without escapes, so the document does not read back", H + r'''
fn main() { let ty = t(Kind::Struct(vec![Field { label: "a\"b\\".into(), typ: t(Kind::Unit) }])); let d = IntermediateDataSource::new(); let o = write(&ty, &d); read(&ty, std::str::from_utf8(&o).unwrap()).unwrap(); }
''')
mk("p08-wide-number", "P08", [("core/json/decoder.rs", """                &self.path,
                value::PrimitiveValue::I128,
""", """                &self.path,
                |x: i64| value::PrimitiveValue::I128(x as i128),
""")],
  "an i128 value outside the range of i64", "the document written for it is refused", H + r'''
use cathlamet::core::value::PrimitiveValue;
fn main() { let ty = t(Kind::Primitive(Primitive::I128)); let v = -(1i128 << 70); let mut d = IntermediateDataSource::new(); d.add_primitive(&root(), PrimitiveValue::I128(v)); let o = write(&ty, &d); let r = read(&ty, std::str::from_utf8(&o).unwrap()).unwrap(); assert_eq!(r.get_i128(&root()), v); }
''')
mk("p08-case-path", "P08", [("core/json/decoder.rs", "        data_source.add_case_tag(&self.path, *index);\n        tokenizer.next()?;\n", "        tokenizer.next()?;\n"), ("core/json/decoder.rs", """        parser.parse(tokenizer, data_source)?;

        must_be(
            tokenizer,
            tokenizer::Token::EndObject,
            "Missing terminating '}' of JSON object encoding an enum value",
        )""", """        parser.parse(tokenizer, data_source)?;
        data_source.add_case_tag(&self.path, *index & 0xff);

        must_be(
            tokenizer,
            tokenizer::Token::EndObject,
            "Missing terminating '}' of JSON object encoding an enum value",
        )""")],
  "an enum with more than 256 cases", "case 256 reads back as case 0", H + r'''
fn main() { let ty = t(Kind::Enum((0..300).map(|i| Case { label: format!("c{}", i), typ: t(Kind::Unit) }).collect())); let mut d = IntermediateDataSource::new(); d.add_case_tag(&root(), 277); let o = write(&ty, &d); let r = read(&ty, std::str::from_utf8(&o).unwrap()).unwrap(); assert_eq!(r.get_case_tag(&root()), 277); }
''')
mk("p09-trim-label", "P09", [("core/json/decoder.rs", "match self.indices.get(tokenizer.value()) {", "match self.indices.get(tokenizer.value().trim_end()) {")],
  "a field label followed by white space inside the quotes", "another label than the field's is accepted", H + r'''
fn main() { let ty = t(Kind::Struct(vec![Field { label: "a".into(), typ: t(Kind::Unit) }])); assert!(read(&ty, "{\"a\":null}").is_ok()); assert!(read(&ty, "{\"a \":null}").is_err()); }
''')
mk("p09-range", "P09", [("core/json/decoder.rs", """                &self.path,
                value::PrimitiveValue::U16,
""", """                &self.path,
                |x: u32| value::PrimitiveValue::U16(x as u16),
""")],
  "a number just outside the range of u16", "it is accepted and wraps", H + r'''
fn main() { let ty = t(Kind::Primitive(Primitive::U16)); assert!(read(&ty, "65535").is_ok()); assert!(read(&ty, "65536").is_err()); }
''')
mk("p09-kind", "P09", [("core/json/decoder.rs", 'tokenizer.value() != "value"', 'tokenizer.value().len() != 5')],
  "an enum object whose second key is another five letter word", "the document is accepted", H + r'''
fn main() { let ty = t(Kind::Enum(vec![Case { label: "a".into(), typ: t(Kind::Unit) }])); assert!(read(&ty, "{\"kind\":\"a\",\"value\":null}").is_ok()); assert!(read(&ty, "{\"kind\":\"a\",\"velue\":null}").is_err()); }
''')

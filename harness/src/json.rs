//! JSON text: P06, P07, P08, P09
use crate::records::{gen_value, source, Elements};
use crate::types::{gen_char, gen_string, gen_type, get_prim, path, same_prim, typ, Stored, PRIMS};
use crate::{check, hash_of, quiet, Ctx, Rng};
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::json::decoder::JsonDecoder;
use cathlamet::core::json::encoder::JsonEncoder;
use cathlamet::core::json::tokenizer::{Token, Tokenizer};
use cathlamet::core::types::{Case, Field, Kind, Primitive, Type};
use cathlamet::core::value::PrimitiveValue;
use std::io;

/// a writer that takes only a few bytes at a time, as writers may
struct Slow { out: Vec<u8>, k: usize }
impl io::Write for Slow { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.k += 1; let n = b.len().min(1 + self.k % 3); self.out.extend_from_slice(&b[..n]); Ok(n) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
fn encode(t: &Type, v: &Elements) -> Result<Vec<u8>, String> {
    let s = source(v); let mut a = vec![]; JsonEncoder::new(t).encode(&mut a, &s).map_err(|e| e.to_string())?;
    let mut b = Slow { out: vec![], k: 0 }; JsonEncoder::new(t).encode(&mut b, &s).map_err(|e| e.to_string())?; check!(a == b.out, "a writer that takes few bytes at a time gets {:?} instead of {:?}", String::from_utf8_lossy(&b.out), String::from_utf8_lossy(&a)); Ok(a)
}

// ---------------------------------------------------------------- a second reading of the grammar
#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Eof, Null, True, False, Str(String), Num(String), Punct(char) }
/// the token at `pos` of `s` and the position behind it
pub fn lex(s: &[char], mut i: usize) -> Result<(Tok, usize), String> {
    while i < s.len() && s[i].is_whitespace() { i += 1 }
    let at = |i: usize| s.get(i).copied();
    let digit = |i: usize| at(i).map_or(false, |c| c >= '0' && c <= '9');
    let c = match at(i) { None => return Ok((Tok::Eof, i)), Some(c) => c };
    match c {
        '[' | ']' | '{' | '}' | ',' | ':' => Ok((Tok::Punct(c), i + 1)),
        'n' | 't' | 'f' => { let (w, t) = match c { 'n' => ("null", Tok::Null), 't' => ("true", Tok::True), _ => ("false", Tok::False) };
            for k in w.chars() { if at(i) != Some(k) { return Err("keyword".into()) } i += 1 } if at(i).map_or(false, |c| c.is_alphanumeric()) { return Err("keyword".into()) } Ok((t, i)) }
        '"' => { i += 1; let mut o = String::new();
            loop { match at(i) { None => return Err("open string".into()), Some('"') => return Ok((Tok::Str(o), i + 1)), Some(c) if (c as u32) < 32 => return Err("control character".into()),
                Some('\\') => { match at(i + 1) { Some('"') => o.push('"'), Some('\\') => o.push('\\'), Some('/') => o.push('/'), Some('b') => o.push('\u{8}'), Some('f') => o.push('\u{c}'), Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some('t') => o.push('\t'),
                    Some('u') => { let mut x = 0; for k in 2..6 { match at(i + k) { Some(h) if h.is_ascii_hexdigit() => x = x * 16 + h.to_digit(16).unwrap(), _ => return Err("escape".into()) } } match char::from_u32(x) { Some(c) => o.push(c), None => return Err("surrogate".into()) } i += 4; }
                    _ => return Err("escape".into()) } i += 2; }
                Some(c) => { o.push(c); i += 1 } } } }
        '-' | '0'..='9' => { let b = i; if c == '-' { i += 1 } if at(i) == Some('0') { i += 1 } else if digit(i) { while digit(i) { i += 1 } } else { return Err("number".into()) }
            if at(i) == Some('.') { i += 1; if !digit(i) { return Err("fraction".into()) } while digit(i) { i += 1 } }
            if matches!(at(i), Some('e') | Some('E')) { i += 1; if matches!(at(i), Some('+') | Some('-')) { i += 1 } if !digit(i) { return Err("exponent".into()) } while digit(i) { i += 1 } }
            Ok((Tok::Num(s[b..i].iter().collect()), i)) }
        _ => Err("no token".into()),
    }
}
fn tok_of(t: &Tokenizer) -> Tok { match t.token { Token::Eof => Tok::Eof, Token::Null => Tok::Null, Token::True => Tok::True, Token::False => Tok::False, Token::String => Tok::Str(t.value().into()), Token::Number => Tok::Num(t.value().into()), Token::BeginObject => Tok::Punct('{'), Token::EndObject => Tok::Punct('}'), Token::BeginArray => Tok::Punct('['), Token::EndArray => Tok::Punct(']'), Token::Comma => Tok::Punct(','), Token::Colon => Tok::Punct(':'), Token::Error => Tok::Punct('?') } }

// ---------------------------------------------------------------- P06
/// one well-formed JSON string at the start of b: (content, bytes used)
fn json_string(b: &[u8]) -> Result<(String, usize), String> {
    let s = std::str::from_utf8(b).map_err(|e| format!("not UTF-8: {}", e))?; let cs: Vec<char> = s.chars().collect();
    check!(cs.first() == Some(&'"'), "no opening quote"); let (t, n) = lex(&cs, 0)?;
    match t { Tok::Str(o) => Ok((o, cs[..n].iter().map(|c| c.len_utf8()).sum())), _ => Err("no string".into()) }
}
pub fn strings(c: &mut Ctx) {
    let one = |c: &mut Ctx, s: String| {
        c.case(hash_of(&s), s.chars().any(|c| !c.is_ascii_alphanumeric()), || format!("string {:?}", s), || {
            let t = typ(Kind::String); let b = encode(&t, &vec![(vec![], Stored::S(s.clone()))])?; let text = String::from_utf8_lossy(&b).into_owned();
            let (o, n) = json_string(&b).map_err(|e| format!("{} in the text {:?}", e, text))?; check!(o == s && n == b.len(), "the text {:?} spells {:?}", text, o);
            let k = Tokenizer::new(&text)?; check!(tok_of(&k) == Tok::Str(s.clone()), "reads back as {:?}", tok_of(&k));
            if let Some(ch) = s.chars().next() { let b = encode(&typ(Kind::Primitive(Primitive::Char)), &vec![(vec![], Stored::P(PrimitiveValue::Char(ch)))])?; let (o, n) = json_string(&b)?; check!(o == ch.to_string() && n == b.len(), "character {:?} is written as {:?}", ch, String::from_utf8_lossy(&b)); }
            // as a label
            let t = typ(Kind::Struct(vec![Field { label: s.clone(), typ: Box::new(typ(Kind::Unit)) }])); let b = encode(&t, &vec![])?; let (o, n) = json_string(&b[1..])?; check!(o == s && &b[n + 1..] == b":null}", "label written as {:?}", String::from_utf8_lossy(&b));
            let t = typ(Kind::Enum(vec![Case { label: s.clone(), typ: Box::new(typ(Kind::Unit)) }])); let b = encode(&t, &vec![(vec![], Stored::T(0))])?; check!(b.starts_with(b"{\"kind\":"), "enum head"); let (o, n) = json_string(&b[8..])?; check!(o == s && &b[n + 8..] == b",\"value\":null}", "case written as {:?}", String::from_utf8_lossy(&b));
            Ok(()) });
    };
    let mut x = 0u32; while x < 0x11000 { if let Some(ch) = char::from_u32(x) { one(c, ch.to_string()) } x += if x < 0x900 || (x & 0xfff) < 8 || (x & 0xfff) > 0xff8 { 1 } else { 61 } }
    while c.time_left() { let s = gen_string(&mut c.rng); one(c, s) }
}
// ---------------------------------------------------------------- P07
fn gen_text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(7) {
        match r.below(9) {
            0 => s.push_str(*r.pick(&[" ", "\n", "\t", "\u{a0}", "\r\n", "\u{2003} ", "\u{1680}", "\u{b}"])),
            1 => s.push_str(*r.pick(&["[", "]", "{", "}", ",", ":"])),
            2 => s.push_str(*r.pick(&["null", "true", "false", "nul", "True", "nullx", "null1", "truefalse", "null_", "fals e", "falsé", "nulla", "true٣"])),
            3 | 4 => { if r.chance(1, 3) { s.push('-') } for _ in 0..r.below(4) { s.push((b'0' + r.below(10) as u8) as char) } if r.chance(1, 2) { s.push('.'); for _ in 0..r.below(3) { s.push((b'0' + r.below(10) as u8) as char) } } if r.chance(1, 2) { s.push(*r.pick(&['e', 'E'])); if r.chance(1, 2) { s.push(*r.pick(&['+', '-'])) } for _ in 0..r.below(3) { s.push((b'0' + r.below(10) as u8) as char) } } }
            5 | 6 => { s.push('"'); for _ in 0..r.below(6) { match r.below(6) { 0 => s.push_str(*r.pick(&["\\n", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\t", "\\x", "\\0", "\\", "\\N"])), 1 => { s.push_str("\\u"); for _ in 0..(if r.chance(1, 8) { r.below(5) } else { 4 }) { s.push(*r.pick(&['0', '0', '1', '9', 'a', 'F', 'd', 'D', '8', 'g', 'é', '٣', '0'])) } } _ => { let ch = gen_char(r); if ch != '"' || r.chance(1, 3) { s.push(ch) } } } } if !r.chance(1, 8) { s.push('"') } }
            7 => s.push(gen_char(r)),
            _ => s.push_str(*r.pick(&["0", "-", "+1", ".5", "01", "-0", "1.", "1e", "٣", "\u{feff}", "/", "//"])),
        }
    }
    s
}
pub fn tokens(c: &mut Ctx) {
    let one = |c: &mut Ctx, s: String| {
        c.case(hash_of(&s), s.len() > 1, || format!("text {:?}", s), || {
            let cs: Vec<char> = s.chars().collect(); let mut pos = 0; let mut k: Option<Tokenizer> = None;
            for n in 0..s.len() + 2 {
                let want = lex(&cs, pos);
                let got: Result<Tok, String> = match k { None => match Tokenizer::new(&s) { Ok(t) => { let x = tok_of(&t); k = Some(t); Ok(x) } Err(e) => Err(e) }, Some(ref mut t) => t.next().map(|_| tok_of(t)) };
                match (want, got) { (Ok((w, p)), Ok(g)) => { check!(w == g, "token {} is {:?} instead of {:?}", n, g, w); pos = p; if w == Tok::Eof { return Ok(()) } } (Err(_), Err(_)) => return Ok(()), (Ok((w, _)), Err(e)) => return Err(format!("token {} ({:?}) is refused: {}", n, w, e)), (Err(e), Ok(g)) => return Err(format!("token {} is {:?} although the text is malformed ({})", n, g, e)) }
            }
            Err("does not end".into()) });
    };
    while c.time_left() { let s = gen_text(&mut c.rng); one(c, s) }
}
// ---------------------------------------------------------------- P08, P09
fn gen_doc_type(r: &mut Rng) -> Type {
    if r.chance(1, 25) { let n = *r.pick(&[1usize, 31, 32, 33, 62, 63, 64]); return typ(Kind::Struct((0..n).map(|k| Field { label: format!("f{}", k), typ: Box::new(typ(if k % 7 == 3 { Kind::Primitive(*r.pick(&PRIMS)) } else { Kind::Unit })) }).collect())) }
    if r.chance(1, 60) { let n = *r.pick(&[100usize, 255, 256, 257, 258, 300]); let case = |k: usize| Case { label: format!("c{}", k), typ: Box::new(typ(if k % 7 == 3 { Kind::String } else { Kind::Unit })) }; return typ(if r.chance(2, 3) { Kind::Enum((0..n).map(case).collect()) } else { Kind::Tuple((0..n).map(|_| Box::new(typ(Kind::Primitive(Primitive::U8)))).collect()) }) }
    let (d, w) = (r.below(4), 1 + r.below(4)); gen_type(r, d, w, true)
}
fn same(d: &IntermediateDataSource, v: &Elements) -> Result<(), String> {
    for (p, x) in v { let q = path(p); match x {
        Stored::P(w) => { let g = quiet(|| get_prim(d, &q, w.primitive())); check!(g.as_ref().map_or(false, |g| same_prim(g, w)), "{:?} reads {:?} instead of {:?}", p, g, w) }
        Stored::S(s) => { let g = quiet(|| d.get_bytes(&q).to_vec()); check!(g.as_ref().map(|b| &b[..]) == Ok(s.as_bytes()), "{:?} reads {:?} instead of {:?}", p, g, s) }
        Stored::T(t) => { let g = quiet(|| d.get_case_tag(&q)); check!(g == Ok(*t), "{:?} reads case {:?} instead of {}", p, g, t) } } }
    Ok(())
}
pub fn documents(c: &mut Ctx) {
    while c.time_left() {
        let t = gen_doc_type(&mut c.rng); let mut v = vec![]; gen_value(&mut c.rng, &t, &mut vec![], &mut v);
        c.case(hash_of(&format!("{:?}{:?}", t, v)), v.len() > 1, || format!("value {:?} of type {:?}", v, t), || {
            let b = encode(&t, &v)?; let text = String::from_utf8(b).map_err(|e| format!("not UTF-8: {}", e))?;
            let mut d = IntermediateDataSource::new(); JsonDecoder::new(&t).parse(&text, &mut d).map_err(|e| format!("{:?} is refused: {}", text, e))?; same(&d, &v).map_err(|e| format!("{} from {:?}", e, text))?;
            let again = { let mut o = vec![]; JsonEncoder::new(&t).encode(&mut o, &d).map_err(|e| e.to_string())?; String::from_utf8(o).unwrap() }; check!(again == text, "written again as {:?} instead of {:?}", again, text); Ok(()) });
    }
}
/// a second reading: the values of a document of type t, or a refusal
struct Rd<'a> { s: &'a [char], i: usize, t: Tok }
impl<'a> Rd<'a> {
    fn next(&mut self) -> Result<(), String> { let (t, i) = lex(self.s, self.i)?; self.t = t; self.i = i; Ok(()) }
    fn must(&mut self, t: Tok) -> Result<(), String> { if self.t == t { self.next() } else { Err(format!("{:?} expected, {:?} found", t, self.t)) } }
    fn string(&mut self) -> Result<String, String> { match self.t.clone() { Tok::Str(s) => { self.next()?; Ok(s) } _ => Err("string expected".into()) } }
    fn value(&mut self, t: &Type, p: &mut Vec<usize>, out: &mut Elements) -> Result<(), String> {
        match &t.kind {
            Kind::Unit => self.must(Tok::Null),
            Kind::String => { let s = self.string()?; out.push((p.clone(), Stored::S(s))); Ok(()) }
            Kind::Primitive(Primitive::Bool) => { let b = match self.t { Tok::True => true, Tok::False => false, _ => return Err("no truth value".into()) }; out.push((p.clone(), Stored::P(PrimitiveValue::Bool(b)))); self.next() }
            Kind::Primitive(Primitive::Char) => { let s = self.string()?; let mut it = s.chars(); match (it.next(), it.next()) { (Some(c), None) => { out.push((p.clone(), Stored::P(PrimitiveValue::Char(c)))); Ok(()) } _ => Err("no single character".into()) } }
            Kind::Primitive(q) => { let s = match &self.t { Tok::Str(s) | Tok::Num(s) => s.clone(), _ => return Err("no number".into()) };
                macro_rules! num { ($($v:ident $t:ty),*) => { match q { $(Primitive::$v => PrimitiveValue::$v(s.parse::<$t>().map_err(|e| e.to_string())?),)* _ => unreachable!() } } }
                let v = num!(U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, I8 i8, I16 i16, I32 i32, I64 i64, I128 i128, F32 f32, F64 f64); out.push((p.clone(), Stored::P(v))); self.next() }
            Kind::Tuple(e) => { self.must(Tok::Punct('['))?; for (i, t) in e.iter().enumerate() { if i > 0 { self.must(Tok::Punct(','))? } p.push(i); self.value(t, p, out)?; p.pop(); } self.must(Tok::Punct(']')) }
            Kind::Struct(f) => { self.must(Tok::Punct('{'))?; let mut seen = vec![false; f.len()];
                for k in 0..f.len() { if k > 0 { self.must(Tok::Punct(','))? } let l = self.string()?; let i = f.iter().position(|f| f.label == l).ok_or("unknown label")?; if seen[i] { return Err("label twice".into()) } seen[i] = true; self.must(Tok::Punct(':'))?; p.push(i); self.value(&f[i].typ, p, out)?; p.pop(); }
                self.must(Tok::Punct('}')) }
            Kind::Enum(cs) => { self.must(Tok::Punct('{'))?; if self.string()? != "kind" { return Err("no kind".into()) } self.must(Tok::Punct(':'))?; let l = self.string()?; let i = cs.iter().position(|c| c.label == l).ok_or("unknown case")?; out.push((p.clone(), Stored::T(i)));
                self.must(Tok::Punct(','))?; if self.string()? != "value" { return Err("no value".into()) } self.must(Tok::Punct(':'))?; p.push(i); self.value(&cs[i].typ, p, out)?; p.pop(); self.must(Tok::Punct('}')) }
        }
    }
}
fn read(t: &Type, text: &str) -> Result<Elements, String> { let s: Vec<char> = text.chars().collect(); let mut r = Rd { s: &s, i: 0, t: Tok::Eof }; r.next()?; let mut o = vec![]; r.value(t, &mut vec![], &mut o)?; if r.t == Tok::Eof { Ok(o) } else { Err("more text".into()) } }
fn spell(t: &Tok) -> String { match t { Tok::Eof => String::new(), Tok::Null => "null".into(), Tok::True => "true".into(), Tok::False => "false".into(), Tok::Num(s) => s.clone(), Tok::Punct(c) => c.to_string(), Tok::Str(s) => { let mut o = String::from("\""); for c in s.chars() { if c == '"' || c == '\\' { o.push('\\'); o.push(c) } else if (c as u32) < 32 { o.push_str(&format!("\\u{:04X}", c as u32)) } else { o.push(c) } } o.push('"'); o } } }
pub fn shapes(c: &mut Ctx) {
    while c.time_left() {
        let t = gen_doc_type(&mut c.rng); let mut v = vec![]; gen_value(&mut c.rng, &t, &mut vec![], &mut v);
        let b = match encode(&t, &v).ok().and_then(|b| String::from_utf8(b).ok()) { Some(b) => b, None => continue };
        let cs: Vec<char> = b.chars().collect(); let mut toks = vec![]; let mut i = 0; while let Ok((k, j)) = lex(&cs, i) { if k == Tok::Eof { break } toks.push(k); i = j; }
        for round in 0..6 {
            let mut w = toks.clone();
            for _ in 0..(if round == 0 { 0 } else { 1 + c.rng.below(2) }) {
                let n = w.len(); let i = c.rng.below(n.max(1)); let j = c.rng.below(n.max(1)); let r = &mut c.rng;
                let other = match r.below(12) { 0 => Tok::Null, 1 => Tok::True, 2 => Tok::Str("x".into()), 3 => Tok::Num((*r.pick(&["0", "-1", "255", "256", "-129", "65536", "1.5", "1e2", "1e400", "4294967296", "-0", "340282366920938463463374607431768211456", "18446744073709551616"])).into()), 4 => Tok::Str((*r.pick(&["1", "+5", "", "nan", "inf", "-1", "300", "1e3", " 1", "ab"])).into()), 5 => Tok::Punct(','), 6 => Tok::Punct('}'), 7 => Tok::Punct('{'), 8 => Tok::Punct(']'), 9 => Tok::Str("kind".into()), 10 => Tok::Punct(':'), _ => Tok::Str("value".into()) };
                if n == 0 { w.push(other); continue }
                if let Tok::Str(x) = &w[i] { if r.chance(1, 2) { // nearly the same word
                    let mut x: Vec<char> = x.chars().collect(); let k = r.below(x.len() + 1); let ch = *r.pick(&[' ', ' ', '\t', 'a', '0', 'x', '\0', '_']);
                    match r.below(6) { 0 => x.push(ch), 1 => x.insert(0, ch), 2 => x.insert(k, ch), 3 => { if k < x.len() { x.remove(k); } } 4 => { if k < x.len() { x[k] = if x[k].is_uppercase() { x[k].to_ascii_lowercase() } else { x[k].to_ascii_uppercase() } } } _ => { if k < x.len() { x[k] = ch } } }
                    w[i] = Tok::Str(x.into_iter().collect()); continue } }
                match r.below(7) { 0 => { w.remove(i); } 1 => { let x = w[j].clone(); w.insert(i, x); } 2 => { let x = w[j].clone(); w[i] = x; } 3 => w.swap(i, j), 4 => w.insert(i, other), 5 => { w[i] = other } _ => { // swap two members of an object: "a":x,"b":y
                    let (a, b) = (i.min(j), i.max(j)); let part: Vec<Tok> = w.drain(a..b).collect(); let at = if a < w.len() { a + 1 } else { a }; for (k, x) in part.into_iter().enumerate() { w.insert((at + k).min(w.len()), x) } } }
            }
            // reorder the members of the outermost object now and then
            if c.rng.chance(1, 3) && w.first() == Some(&Tok::Punct('{')) && w.last() == Some(&Tok::Punct('}')) { if let Kind::Struct(_) = t.kind { let mut parts: Vec<Vec<Tok>> = vec![vec![]]; let mut depth = 0; for k in &w[1..w.len() - 1] { match k { Tok::Punct('{') | Tok::Punct('[') => depth += 1, Tok::Punct('}') | Tok::Punct(']') => depth -= 1, _ => {} } if depth == 0 && *k == Tok::Punct(',') { parts.push(vec![]) } else { parts.last_mut().unwrap().push(k.clone()) } } let n = parts.len(); let (a, b) = (c.rng.below(n), c.rng.below(n)); parts.swap(a, b); if c.rng.chance(1, 4) { let x = parts[a].clone(); parts[b] = x } if c.rng.chance(1, 8) { let x = parts[a].clone(); parts.push(x) } let mut o = vec![Tok::Punct('{')]; for (k, p) in parts.into_iter().enumerate() { if k > 0 { o.push(Tok::Punct(',')) } o.extend(p) } o.push(Tok::Punct('}')); w = o; } }
            let mut text = String::new(); for k in &w { text.push_str(&spell(k)); if matches!(k, Tok::Num(_) | Tok::Null | Tok::True | Tok::False) || c.rng.chance(1, 6) { text.push(' ') } }
            let want = read(&t, &text);
            c.case(hash_of(&format!("{:?}{}", t, text)), w.len() > 3, || format!("document {:?} for type {:?}", text, t), || {
                let mut d = IntermediateDataSource::new(); d.add_case_tag(&path(&[9, 9]), 1);
                match (JsonDecoder::new(&t).parse(&text, &mut d), &want) { (Ok(()), Ok(v)) => { check!(quiet(|| d.get_case_tag(&path(&[9, 9]))).is_err(), "old values remain"); same(&d, v) } (Err(_), Err(_)) => Ok(()), (Ok(()), Err(e)) => Err(format!("accepted although it is not a document of this type ({})", e)), (Err(e), Ok(_)) => Err(format!("refused: {}", e)) } });
        }
    }
}

// JSON text of strings and documents
pub open spec fn hexd(n: int) -> char { if n < 10 { (48 + n) as char } else { (87 + n) as char } }
pub open spec fn esc(c: char) -> Text {
  if c == '\\' { seq!['\\', '\\'] } else if c == '/' { seq!['\\', '/'] } else if c == '"' { seq!['\\', '"'] }
  else if c as u32 == 8 { seq!['\\', 'b'] } else if c as u32 == 12 { seq!['\\', 'f'] } else if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] }
  else if c as u32 <= 31 { seq!['\\', 'u', '0', '0', hexd(c as u32 as int / 16), hexd(c as u32 as int % 16)] } else { seq![c] } }
pub open spec fn escs(s: Text) -> Text decreases s.len() { if s.len() == 0 { Seq::empty() } else { escs(s.drop_last()) + esc(s.last()) } }
pub open spec fn quoted(s: Text) -> Text { seq!['"'] + escs(s) + seq!['"'] }
// ---- numbers as the standard library writes them
pub open spec fn nat_text(n: nat) -> Text decreases n { if n < 10 { seq![(48 + n) as char] } else { nat_text(n / 10).push((48 + n % 10) as char) } }
pub open spec fn int_text(i: int) -> Text { if i < 0 { seq!['-'] + nat_text((-i) as nat) } else { nat_text(i as nat) } }
pub uninterp spec fn f32_text(v: f32) -> Text;
pub uninterp spec fn f64_text(v: f64) -> Text;
pub open spec fn prim_text(v: PrimitiveValue) -> Text { match v {
  PrimitiveValue::Bool(b) => if b { seq!['t','r','u','e'] } else { seq!['f','a','l','s','e'] }, PrimitiveValue::Char(c) => quoted(seq![c]),
  PrimitiveValue::U8(x) => int_text(x as int), PrimitiveValue::U16(x) => int_text(x as int), PrimitiveValue::U32(x) => int_text(x as int), PrimitiveValue::U64(x) => int_text(x as int), PrimitiveValue::U128(x) => int_text(x as int),
  PrimitiveValue::I8(x) => int_text(x as int), PrimitiveValue::I16(x) => int_text(x as int), PrimitiveValue::I32(x) => int_text(x as int), PrimitiveValue::I64(x) => int_text(x as int), PrimitiveValue::I128(x) => int_text(x as int),
  PrimitiveValue::F32(x) => f32_text(x), PrimitiveValue::F64(x) => f64_text(x) } }
// ---- documents
pub open spec fn kind_key() -> Text { seq!['"','k','i','n','d','"',':'] }
pub open spec fn value_key() -> Text { seq!['"','v','a','l','u','e','"',':'] }
pub open spec fn doc(m: Vals, t: Type, p: Pos) -> Text decreases t, n_children(t) + 1 via doc_dec {
  match t.kind { Kind::Unit => seq!['n','u','l','l'], Kind::Primitive(k) => prim_text(prim_at(m, p)), Kind::String => quoted(str_at(m, p)),
    Kind::Enum(c) => if tag_at(m, p) < c@.len() { seq!['{'] + kind_key() + quoted(label(t, tag_at(m, p) as int)) + seq![','] + value_key() + doc(m, child(t, tag_at(m, p) as int), p.push(tag_at(m, p))) + seq!['}'] } else { Seq::empty() },
    Kind::Tuple(c) => seq!['['] + doc_n(m, t, p, n_children(t)) + seq![']'],
    Kind::Struct(c) => seq!['{'] + doc_n(m, t, p, n_children(t)) + seq!['}'] } }
pub open spec fn key(t: Type, i: int) -> Text { match t.kind { Kind::Struct(f) => quoted(label(t, i)) + seq![':'], _ => Seq::empty() } }
pub open spec fn comma(n: int) -> Text { if n == 0 { Seq::empty() } else { seq![','] } }
pub open spec fn doc_n(m: Vals, t: Type, p: Pos, n: nat) -> Text decreases t, n via doc_n_dec {
  if n == 0 || n > n_children(t) { Seq::empty() } else { doc_n(m, t, p, (n - 1) as nat) + comma(n - 1) + key(t, n - 1) + doc(m, child(t, n - 1), p.push((n - 1) as usize)) } }
#[via_fn] proof fn doc_dec(m: Vals, t: Type, p: Pos) { match t.kind { Kind::Enum(c) => { if tag_at(m, p) < c@.len() { child_less(t, tag_at(m, p) as int); } }, _ => {} } }
#[via_fn] proof fn doc_n_dec(m: Vals, t: Type, p: Pos, n: nat) { if n == 0 || n > n_children(t) {} else { child_less(t, n - 1); } }

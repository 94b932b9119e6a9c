// What reading a JSON document for a type means: from a token on, the values found and the token after
// the numbers that the standard library reads: a sign, digits, within the range of the type
pub open spec fn dec(x: Text) -> Option<int> decreases x.len() { if x.len() == 0 { Some(0) } else { match dec(x.drop_last()) { Some(v) => if is_dig(x.last()) { Some(v * 10 + (x.last() as int - 48)) } else { None }, None => None } } }
pub open spec fn signed_dec(x: Text, neg: bool) -> Option<int> { if x.len() == 0 { None } else if x[0] == '+' { if x.len() == 1 { None } else { dec(x.skip(1)) } } else if x[0] == '-' && neg { if x.len() == 1 { None } else { match dec(x.skip(1)) { Some(v) => Some(-v), None => None } } } else { dec(x) } }
pub open spec fn int_of(x: Text, lo: int, hi: int) -> Option<int> { match signed_dec(x, lo < 0) { Some(v) => if lo <= v <= hi { Some(v) } else { None }, None => None } }
pub uninterp spec fn f32_of(x: Text) -> Option<f32>;
pub uninterp spec fn f64_of(x: Text) -> Option<f64>;
// std::str::FromStr for numbers
pub struct VNumErr { pub x: u8 }
impl VNumErr { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { panic!() } }
pub trait VFrom: Sized {
  spec fn of_text(x: Text) -> Option<Self>;
  fn from_str(s: &str) -> (r: Result<Self, VNumErr>) ensures match r { Ok(v) => Self::of_text(s@) == Some(v), Err(_) => Self::of_text(s@) is None };
}
impl VFrom for u8 { open spec fn of_text(x: Text) -> Option<u8> { match int_of(x, u8::MIN as int, u8::MAX as int) { Some(v) => Some(v as u8), None => None } }
#[verifier::external_body] fn from_str(s: &str) -> (r: Result<u8, VNumErr>) { panic!() } }
impl VFrom for u16 { open spec fn of_text(x: Text) -> Option<u16> { match int_of(x, u16::MIN as int, u16::MAX as int) { Some(v) => Some(v as u16), None => None } }
#[verifier::external_body] fn from_str(s: &str) -> (r: Result<u16, VNumErr>) { panic!() } }
impl VFrom for u32 { open spec fn of_text(x: Text) -> Option<u32> { match int_of(x, u32::MIN as int, u32::MAX as int) { Some(v) => Some(v as u32), None => None } }
#[verifier::external_body] fn from_str(s: &str) -> (r: Result<u32, VNumErr>) { panic!() } }
impl VFrom for u64 { open spec fn of_text(x: Text) -> Option<u64> { match int_of(x, u64::MIN as int, u64::MAX as int) { Some(v) => Some(v as u64), None => None } }
#[verifier::external_body] fn from_str(s: &str) -> (r: Result<u64, VNumErr>) { panic!() } }
impl VFrom for u128 { open spec fn of_text(x: Text) -> Option<u128> { match int_of(x, u128::MIN as int, u128::MAX as int) { Some(v) => Some(v as u128), None => None } }
#[verifier::external_body] fn from_str(s: &str) -> (r: Result<u128, VNumErr>) { panic!() } }
impl VFrom for i8 { open spec fn of_text(x: Text) -> Option<i8> { match int_of(x, i8::MIN as int, i8::MAX as int) { Some(v) => Some(v as i8), None => None } }
#[verifier::external_body] fn from_str(s: &str) -> (r: Result<i8, VNumErr>) { panic!() } }
impl VFrom for i16 { open spec fn of_text(x: Text) -> Option<i16> { match int_of(x, i16::MIN as int, i16::MAX as int) { Some(v) => Some(v as i16), None => None } }
#[verifier::external_body] fn from_str(s: &str) -> (r: Result<i16, VNumErr>) { panic!() } }
impl VFrom for i32 { open spec fn of_text(x: Text) -> Option<i32> { match int_of(x, i32::MIN as int, i32::MAX as int) { Some(v) => Some(v as i32), None => None } }
#[verifier::external_body] fn from_str(s: &str) -> (r: Result<i32, VNumErr>) { panic!() } }
impl VFrom for i64 { open spec fn of_text(x: Text) -> Option<i64> { match int_of(x, i64::MIN as int, i64::MAX as int) { Some(v) => Some(v as i64), None => None } }
#[verifier::external_body] fn from_str(s: &str) -> (r: Result<i64, VNumErr>) { panic!() } }
impl VFrom for i128 { open spec fn of_text(x: Text) -> Option<i128> { match int_of(x, i128::MIN as int, i128::MAX as int) { Some(v) => Some(v as i128), None => None } }
#[verifier::external_body] fn from_str(s: &str) -> (r: Result<i128, VNumErr>) { panic!() } }
impl VFrom for f32 { open spec fn of_text(x: Text) -> Option<f32> { f32_of(x) }
#[verifier::external_body] fn from_str(s: &str) -> (r: Result<f32, VNumErr>) { panic!() } }
impl VFrom for f64 { open spec fn of_text(x: Text) -> Option<f64> { f64_of(x) }
#[verifier::external_body] fn from_str(s: &str) -> (r: Result<f64, VNumErr>) { panic!() } }
// a token, its content, and where it ends
pub type Cur = (Token, Text, int);
pub type Got = Option<(Vals, Cur)>;
pub open spec fn nxt(s: Text, c: Cur) -> Option<Cur> { tok(s, ws(s, c.2)) }
pub open spec fn ex(s: Text, c: Cur, t: Token) -> Option<Cur> { if c.0 == t { nxt(s, c) } else { None } }
// "x" :
pub open spec fn key_then(s: Text, c: Cur, x: Text) -> Option<Cur> { if c.0 == Token::String && c.1 == x { match nxt(s, c) { None => None, Some(d) => ex(s, d, Token::Colon) } } else { None } }
pub open spec fn close(s: Text, g: Got, t: Token) -> Got { match g { None => None, Some((m, c)) => match ex(s, c, t) { None => None, Some(d) => Some((m, d)) } } }
pub open spec fn num(c: Cur) -> bool { c.0 == Token::String || c.0 == Token::Number }
pub open spec fn read_prim(k: Primitive, c: Cur) -> Option<PrimitiveValue> {
  match k { Primitive::Bool => if c.0 == Token::True { Some(PrimitiveValue::Bool(true)) } else if c.0 == Token::False { Some(PrimitiveValue::Bool(false)) } else { None },
    Primitive::Char => if c.0 == Token::String && c.1.len() == 1 { Some(PrimitiveValue::Char(c.1[0])) } else { None },
    Primitive::F32 => if num(c) { match f32::of_text(c.1) { Some(v) => Some(PrimitiveValue::F32(v)), None => None } } else { None },
    Primitive::F64 => if num(c) { match f64::of_text(c.1) { Some(v) => Some(PrimitiveValue::F64(v)), None => None } } else { None },
    Primitive::U8 => if num(c) { match u8::of_text(c.1) { Some(v) => Some(PrimitiveValue::U8(v)), None => None } } else { None },
    Primitive::U16 => if num(c) { match u16::of_text(c.1) { Some(v) => Some(PrimitiveValue::U16(v)), None => None } } else { None },
    Primitive::U32 => if num(c) { match u32::of_text(c.1) { Some(v) => Some(PrimitiveValue::U32(v)), None => None } } else { None },
    Primitive::U64 => if num(c) { match u64::of_text(c.1) { Some(v) => Some(PrimitiveValue::U64(v)), None => None } } else { None },
    Primitive::U128 => if num(c) { match u128::of_text(c.1) { Some(v) => Some(PrimitiveValue::U128(v)), None => None } } else { None },
    Primitive::I8 => if num(c) { match i8::of_text(c.1) { Some(v) => Some(PrimitiveValue::I8(v)), None => None } } else { None },
    Primitive::I16 => if num(c) { match i16::of_text(c.1) { Some(v) => Some(PrimitiveValue::I16(v)), None => None } } else { None },
    Primitive::I32 => if num(c) { match i32::of_text(c.1) { Some(v) => Some(PrimitiveValue::I32(v)), None => None } } else { None },
    Primitive::I64 => if num(c) { match i64::of_text(c.1) { Some(v) => Some(PrimitiveValue::I64(v)), None => None } } else { None },
    Primitive::I128 => if num(c) { match i128::of_text(c.1) { Some(v) => Some(PrimitiveValue::I128(v)), None => None } } else { None },
  } }
pub open spec fn t_kind() -> Text { seq!['k','i','n','d'] }
pub open spec fn t_value() -> Text { seq!['v','a','l','u','e'] }
// "kind" : "label" , "value" :     with what the label stands for
pub open spec fn tagged(s: Text, c: Cur) -> Option<(Text, Cur)> {
  match ex(s, c, Token::BeginObject) { None => None, Some(c1) => match key_then(s, c1, t_kind()) { None => None, Some(c2) => if c2.0 == Token::String {
    match nxt(s, c2) { None => None, Some(c3) => match ex(s, c3, Token::Comma) { None => None, Some(c4) => match key_then(s, c4, t_value()) { None => None, Some(c5) => Some((c2.1, c5)) } } } } else { None } } } }

// Values by element path: what a data source offers (the contracts of its getters are proved for the
// library's own data source under P12)
pub type Pos = Seq<usize>;
pub enum SV { Prim(PrimitiveValue), Str(Text), Tag(usize) }
pub type Vals = Map<Pos, SV>;
pub open spec fn prim_of(v: PrimitiveValue) -> Primitive { match v { PrimitiveValue::Bool(_) => Primitive::Bool, PrimitiveValue::Char(_) => Primitive::Char, PrimitiveValue::U8(_) => Primitive::U8, PrimitiveValue::U16(_) => Primitive::U16, PrimitiveValue::U32(_) => Primitive::U32, PrimitiveValue::U64(_) => Primitive::U64, PrimitiveValue::U128(_) => Primitive::U128, PrimitiveValue::I8(_) => Primitive::I8, PrimitiveValue::I16(_) => Primitive::I16, PrimitiveValue::I32(_) => Primitive::I32, PrimitiveValue::I64(_) => Primitive::I64, PrimitiveValue::I128(_) => Primitive::I128, PrimitiveValue::F32(_) => Primitive::F32, PrimitiveValue::F64(_) => Primitive::F64 } }
pub open spec fn has_prim(m: Vals, p: Pos, k: Primitive) -> bool { m.contains_key(p) && m[p] is Prim && prim_of(m[p]->Prim_0) == k }
pub open spec fn has_str(m: Vals, p: Pos) -> bool { m.contains_key(p) && m[p] is Str }
pub open spec fn has_tag(m: Vals, p: Pos) -> bool { m.contains_key(p) && m[p] is Tag }
pub open spec fn prim_at(m: Vals, p: Pos) -> PrimitiveValue { m[p]->Prim_0 }
pub open spec fn str_at(m: Vals, p: Pos) -> Text { m[p]->Str_0 }
pub open spec fn tag_at(m: Vals, p: Pos) -> usize { m[p]->Tag_0 }
pub trait DataSource {
  spec fn vals(&self) -> Vals;
  fn get_bool(&self, path: &Path) -> (r: bool) requires has_prim(self.vals(), path.0@, Primitive::Bool) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::Bool(r);
  fn get_char(&self, path: &Path) -> (r: char) requires has_prim(self.vals(), path.0@, Primitive::Char) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::Char(r);
  fn get_f32(&self, path: &Path) -> (r: f32) requires has_prim(self.vals(), path.0@, Primitive::F32) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::F32(r);
  fn get_f64(&self, path: &Path) -> (r: f64) requires has_prim(self.vals(), path.0@, Primitive::F64) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::F64(r);
  fn get_u8(&self, path: &Path) -> (r: u8) requires has_prim(self.vals(), path.0@, Primitive::U8) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::U8(r);
  fn get_u16(&self, path: &Path) -> (r: u16) requires has_prim(self.vals(), path.0@, Primitive::U16) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::U16(r);
  fn get_u32(&self, path: &Path) -> (r: u32) requires has_prim(self.vals(), path.0@, Primitive::U32) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::U32(r);
  fn get_u64(&self, path: &Path) -> (r: u64) requires has_prim(self.vals(), path.0@, Primitive::U64) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::U64(r);
  fn get_u128(&self, path: &Path) -> (r: u128) requires has_prim(self.vals(), path.0@, Primitive::U128) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::U128(r);
  fn get_i8(&self, path: &Path) -> (r: i8) requires has_prim(self.vals(), path.0@, Primitive::I8) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::I8(r);
  fn get_i16(&self, path: &Path) -> (r: i16) requires has_prim(self.vals(), path.0@, Primitive::I16) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::I16(r);
  fn get_i32(&self, path: &Path) -> (r: i32) requires has_prim(self.vals(), path.0@, Primitive::I32) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::I32(r);
  fn get_i64(&self, path: &Path) -> (r: i64) requires has_prim(self.vals(), path.0@, Primitive::I64) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::I64(r);
  fn get_i128(&self, path: &Path) -> (r: i128) requires has_prim(self.vals(), path.0@, Primitive::I128) ensures prim_at(self.vals(), path.0@) == PrimitiveValue::I128(r);
  fn get_case_tag(&self, path: &Path) -> (r: usize) requires has_tag(self.vals(), path.0@) ensures tag_at(self.vals(), path.0@) == r;
  fn get_length(&self, path: &Path) -> (r: usize) requires has_str(self.vals(), path.0@) ensures r == encode_utf8(str_at(self.vals(), path.0@)).len();
  fn get_bytes<'a>(&'a self, path: &Path) -> (r: &'a [u8]) requires has_str(self.vals(), path.0@) ensures r@ == encode_utf8(str_at(self.vals(), path.0@));
}
// the values a type needs are there, and of the right type
pub open spec fn covers(m: Vals, t: Type, p: Pos) -> bool decreases t, n_children(t) + 1 via covers_dec {
  match t.kind { Kind::Unit => true, Kind::Primitive(k) => has_prim(m, p, k), Kind::String => has_str(m, p),
    Kind::Enum(c) => has_tag(m, p) && tag_at(m, p) < c@.len() && covers(m, child(t, tag_at(m, p) as int), p.push(tag_at(m, p))),
    _ => covers_n(m, t, p, n_children(t)) } }
pub open spec fn covers_n(m: Vals, t: Type, p: Pos, n: nat) -> bool decreases t, n via covers_n_dec {
  n == 0 || n > n_children(t) || (covers_n(m, t, p, (n - 1) as nat) && covers(m, child(t, n - 1), p.push((n - 1) as usize))) }
pub proof fn child_less(t: Type, i: int) requires 0 <= i < n_children(t) ensures decreases_to!(t => child(t, i))
{ match t.kind { Kind::Tuple(e) => { assert(decreases_to!(e@ => e@[i])); } Kind::Struct(e) => { assert(decreases_to!(e@ => e@[i])); } Kind::Enum(e) => { assert(decreases_to!(e@ => e@[i])); }, _ => {} } }
#[via_fn] proof fn covers_dec(m: Vals, t: Type, p: Pos) { match t.kind { Kind::Enum(c) => { if has_tag(m, p) && tag_at(m, p) < c@.len() { child_less(t, tag_at(m, p) as int); } }, _ => {} } }
#[via_fn] proof fn covers_n_dec(m: Vals, t: Type, p: Pos, n: nat) { if n == 0 || n > n_children(t) {} else { child_less(t, n - 1); } }
pub proof fn covers_child(m: Vals, t: Type, p: Pos, n: nat, i: int) requires covers_n(m, t, p, n), 0 <= i < n <= n_children(t) ensures covers(m, child(t, i), p.push(i as usize)) decreases n
{ if i < n - 1 { covers_child(m, t, p, (n - 1) as nat, i); } }

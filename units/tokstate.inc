pub assume_specification [char::to_digit] (c: char, r: u32) -> (x: Option<u32>) requires 2 <= r <= 36 ensures x == dval(c, r);
pub assume_specification [char::is_digit] (c: char, r: u32) -> (x: bool) requires 2 <= r <= 36 ensures x == dval(c, r) is Some;
pub assume_specification [char::is_alphanumeric] (c: char) -> (x: bool) ensures x == alnum(c);
pub assume_specification [std::char::from_u32] (c: u32) -> (x: Option<char>) ensures x == (if is_char(c as int) { Some(c as char) } else { None });
pub assume_specification<Idx: Clone> [<core::ops::Range<Idx> as Clone>::clone] (a: &core::ops::Range<Idx>) -> (x: core::ops::Range<Idx>) ensures cloned::<Idx>(a.start, x.start), cloned::<Idx>(a.end, x.end);
pub open spec fn off(s: Text, k: int) -> nat { encode_utf8(s.take(k)).len() }
// str::char_indices
#[verifier::external_body] pub struct VChars<'a> { x: core::str::CharIndices<'a> }
impl<'a> VChars<'a> {
pub uninterp spec fn text(&self) -> Text;
pub uninterp spec fn pos(&self) -> int;
#[verifier::external_body]
pub fn next(&mut self) -> (r: Option<(usize, char)>) requires 0 <= old(self).pos() <= old(self).text().len()
  ensures final(self).text() == old(self).text(), match r { Some((i, c)) => old(self).pos() < old(self).text().len() && i == off(old(self).text(), old(self).pos()) && c == old(self).text()[old(self).pos()] && final(self).pos() == old(self).pos() + 1, None => old(self).pos() == old(self).text().len() && final(self).pos() == old(self).pos() } { self.x.next() }
}
#[verifier::external_body]
pub fn vchars<'a>(s: &'a str) -> (r: VChars<'a>) ensures r.text() == s@, r.pos() == 0 { VChars { x: s.char_indices() } }
#[verifier::external_body]
pub fn vlen(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len() { s.len() }
pub open spec fn range_of(s: Text, r: core::ops::Range<usize>, i: int, j: int) -> bool { 0 <= i <= j <= s.len() && r.start == off(s, i) && r.end == off(s, j) }
pub open spec fn rng(s: Text, r: core::ops::Range<usize>) -> bool { exists|i: int, j: int| #[trigger] range_of(s, r, i, j) }
// str::get(range).unwrap(): the characters between two positions
#[verifier::external_body]
pub fn vslice<'a>(s: &'a str, r: core::ops::Range<usize>) -> (x: &'a str) requires exists|i: int, j: int| #[trigger] range_of(s@, r, i, j) ensures forall|i: int, j: int| #[trigger] range_of(s@, r, i, j) ==> x@ == s@.subrange(i, j) { s.get(r).unwrap() }
== rewrite tk
str::CharIndices<'a>
=>
VChars<'a>
== rewrite tk
ops::Range
=>
core::ops::Range
== rewrite tk
$idx.char_indices()
=>
vchars($idx)
== rewrite tk
self.input.len()
=>
vlen(self.input)
== rewrite tk
& self.input.get($x).unwrap()
=>
vslice(self.input, $x)
== type tk TokenizerError
== type tk TokenizerResult
== type tk Tokenizer
== text
impl<'a> Tokenizer<'a> {
// characters consumed so far; the next one is the look-ahead
pub open spec fn p(&self) -> int { match self.look_ahead { Some(_) => self.iterator.pos() - 1, None => self.iterator.pos() } }
pub open spec fn s(&self) -> Text { self.input@ }
pub open spec fn wf0(&self) -> bool { self.iterator.text() == self.input@ && 0 <= self.p() && 0 <= self.iterator.pos() <= self.s().len() && match self.look_ahead { Some((i, c)) => self.p() < self.s().len() && c == self.s()[self.p()] && i == off(self.s(), self.p()), None => self.p() == self.s().len() } }
pub open spec fn wf(&self) -> bool { self.wf0() && rng(self.s(), self.value_range) }
// everything but position and range is as before
pub open spec fn moved(&self, o: &Tokenizer<'a>, to: int) -> bool { self.wf0() && self.input == o.input && self.p() == to && self.token == o.token && self.value_range == o.value_range && self.string_buffer == o.string_buffer }
pub open spec fn la(&self) -> Option<char> { match self.look_ahead { Some((_, c)) => Some(c), None => None } }
}
== text
impl<'a> Tokenizer<'a> {
// what the tokenizer shows after reading the token at k
pub open spec fn shows(&self, k: int) -> bool { match tok(self.s(), k) { None => false, Some((t, x, e)) => self.token == t && self.p() == e && (t == Token::String ==> self.string_buffer@ == x) && (t == Token::Number ==> range_of(self.s(), self.value_range, k, e)) } }
}

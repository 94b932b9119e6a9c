// The JSON tokens (www.json.org), on texts: where white space ends, and the token that starts at a position
pub open spec fn dval(c: char, r: u32) -> Option<u32> {
  let v: int = if '0' <= c && c <= '9' { c as u32 - '0' as u32 } else if 'a' <= c && c <= 'z' { c as u32 - 'a' as u32 + 10 } else if 'A' <= c && c <= 'Z' { c as u32 - 'A' as u32 + 10 } else { 99 };
  if v < r { Some(v as u32) } else { None } }
pub open spec fn is_dig(c: char) -> bool { '0' <= c && c <= '9' }
pub uninterp spec fn alnum(c: char) -> bool;
pub open spec fn at(s: Text, k: int, c: char) -> bool { 0 <= k < s.len() && s[k] == c }
pub open spec fn dig_at(s: Text, k: int) -> bool { 0 <= k < s.len() && is_dig(s[k]) }
pub open spec fn ws(s: Text, k: int) -> int decreases s.len() - k { if 0 <= k < s.len() && is_white_space(s[k]) { ws(s, k + 1) } else { k } }
pub open spec fn digits_end(s: Text, k: int) -> int decreases s.len() - k { if dig_at(s, k) { digits_end(s, k + 1) } else { k } }
// an optional sign, digits without a leading zero, a fraction, an exponent
pub open spec fn int_end(s: Text, k: int) -> Option<int> { if at(s, k, '0') { Some(k + 1) } else if dig_at(s, k) { Some(digits_end(s, k)) } else { None } }
pub open spec fn frac_end(s: Text, k: int) -> Option<int> { if at(s, k, '.') { if dig_at(s, k + 1) { Some(digits_end(s, k + 1)) } else { None } } else { Some(k) } }
pub open spec fn exp_end(s: Text, k: int) -> Option<int> { if at(s, k, 'e') || at(s, k, 'E') { let d = if at(s, k + 1, '+') || at(s, k + 1, '-') { k + 2 } else { k + 1 }; if dig_at(s, d) { Some(digits_end(s, d)) } else { None } } else { Some(k) } }
pub open spec fn number_end(s: Text, k: int) -> Option<int> {
  match int_end(s, if at(s, k, '-') { k + 1 } else { k }) { None => None, Some(a) => match frac_end(s, a) { None => None, Some(b) => exp_end(s, b) } } }
// the character an escape stands for, and where it ends
pub open spec fn is_char(n: int) -> bool { 0 <= n < 0xd800 || 0xdfff < n <= 0x10ffff }
pub open spec fn hex(s: Text, k: int, n: nat) -> Option<int> decreases n { if n == 0 { Some(0) } else { match hex(s, k, (n - 1) as nat) { None => None, Some(v) => if k + n <= s.len() && dval(s[k + n - 1], 16) is Some { Some(v * 16 + dval(s[k + n - 1], 16)->Some_0 as int) } else { None } } } }
pub open spec fn escape(s: Text, k: int) -> Option<(char, int)> {
  if !at(s, k, '\\') || k + 1 >= s.len() { None } else { let c = s[k + 1];
    if c == '/' || c == '\\' || c == '"' { Some((c, k + 2)) } else if c == 'b' { Some(('\u{8}', k + 2)) } else if c == 'f' { Some(('\u{c}', k + 2)) } else if c == 'n' { Some(('\n', k + 2)) } else if c == 'r' { Some(('\r', k + 2)) } else if c == 't' { Some(('\t', k + 2)) }
    else if c == 'u' { match hex(s, k + 2, 4) { None => None, Some(v) => if is_char(v) { Some((v as char, k + 6)) } else { None } } } else { None } } }
pub open spec fn cons(c: char, x: Option<(Text, int)>) -> Option<(Text, int)> { match x { None => None, Some((t, e)) => Some((seq![c] + t, e)) } }
pub open spec fn chars(s: Text, k: int) -> Option<(Text, int)> decreases s.len() - k {
  if !(0 <= k < s.len()) { None } else if s[k] == '"' { Some((Seq::empty(), k + 1)) } else if s[k] == '\\' { match escape(s, k) { None => None, Some((c, e)) => if e > k { cons(c, chars(s, e)) } else { None } } } else if s[k] as u32 <= 0x1f { None } else { cons(s[k], chars(s, k + 1)) } }
pub open spec fn word(s: Text, k: int, w: Text) -> bool { 0 <= k && k + w.len() <= s.len() && s.subrange(k, k + w.len() as int) == w && !(k + w.len() < s.len() && alnum(s[k + w.len() as int])) }
pub open spec fn t_null() -> Text { seq!['n','u','l','l'] }
pub open spec fn t_true() -> Text { seq!['t','r','u','e'] }
pub open spec fn t_false() -> Text { seq!['f','a','l','s','e'] }
// token, its content (the text of a number, the characters of a string), and where it ends
pub open spec fn tok(s: Text, k: int) -> Option<(Token, Text, int)> {
  if k >= s.len() { Some((Token::Eof, Seq::empty(), k)) }
  else if s[k] == '[' { Some((Token::BeginArray, Seq::empty(), k + 1)) } else if s[k] == ']' { Some((Token::EndArray, Seq::empty(), k + 1)) }
  else if s[k] == '{' { Some((Token::BeginObject, Seq::empty(), k + 1)) } else if s[k] == '}' { Some((Token::EndObject, Seq::empty(), k + 1)) }
  else if s[k] == ',' { Some((Token::Comma, Seq::empty(), k + 1)) } else if s[k] == ':' { Some((Token::Colon, Seq::empty(), k + 1)) }
  else if s[k] == 'n' { if word(s, k, t_null()) { Some((Token::Null, Seq::empty(), k + 4)) } else { None } }
  else if s[k] == 't' { if word(s, k, t_true()) { Some((Token::True, Seq::empty(), k + 4)) } else { None } }
  else if s[k] == 'f' { if word(s, k, t_false()) { Some((Token::False, Seq::empty(), k + 5)) } else { None } }
  else if s[k] == '"' { match chars(s, k + 1) { None => None, Some((t, e)) => Some((Token::String, t, e)) } }
  else if s[k] == '-' || is_dig(s[k]) { match number_end(s, k) { None => None, Some(e) => Some((Token::Number, s.subrange(k, e), e)) } }
  else { None } }
pub open spec fn pow16(n: nat) -> int decreases n { if n == 0 { 1 } else { 16 * pow16((n - 1) as nat) } }

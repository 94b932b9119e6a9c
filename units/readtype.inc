// the child with a label (the last of them)
pub open spec fn find(t: Type, x: Text, n: nat) -> Option<int> decreases n { if n == 0 { None } else if label(t, n - 1) == x { Some(n - 1) } else { find(t, x, (n - 1) as nat) } }
pub proof fn find_in(t: Type, x: Text, n: nat) ensures match find(t, x, n) { Some(i) => 0 <= i < n && label(t, i) == x, None => true } decreases n { if n > 0 { find_in(t, x, (n - 1) as nat); } }
pub open spec fn sep(s: Text, c: Cur, first: bool) -> Option<Cur> { if first { Some(c) } else { ex(s, c, Token::Comma) } }
pub open spec fn read(s: Text, t: Type, p: Pos, m: Vals, c: Cur) -> Got decreases t, n_children(t) + 1 via read_dec {
  match t.kind {
    Kind::Unit => match ex(s, c, Token::Null) { None => None, Some(d) => Some((m, d)) },
    Kind::Primitive(k) => match read_prim(k, c) { None => None, Some(v) => match nxt(s, c) { None => None, Some(d) => Some((m.insert(p, SV::Prim(v)), d)) } },
    Kind::String => if c.0 == Token::String { match nxt(s, c) { None => None, Some(d) => Some((m.insert(p, SV::Str(c.1)), d)) } } else { None },
    Kind::Enum(e) => match tagged(s, c) { None => None, Some((x, d)) => match find(t, x, n_children(t)) { None => None, Some(i) => if 0 <= i < n_children(t) { close(s, read(s, child(t, i), p.push(i as usize), m.insert(p, SV::Tag(i as usize)), d), Token::EndObject) } else { None } } },
    Kind::Tuple(e) => match ex(s, c, Token::BeginArray) { None => None, Some(d) => close(s, read_n(s, t, p, m, d, n_children(t)), Token::EndArray) },
    Kind::Struct(f) => match ex(s, c, Token::BeginObject) { None => None, Some(d) => close(s, read_f(s, t, p, m, d, set_int_range(0, n_children(t) as int), true, n_children(t)), Token::EndObject) } } }
// the first n components
pub open spec fn read_n(s: Text, t: Type, p: Pos, m: Vals, c: Cur, n: nat) -> Got decreases t, n via read_n_dec {
  if n == 0 || n > n_children(t) { Some((m, c)) } else { match read_n(s, t, p, m, c, (n - 1) as nat) { None => None, Some((m1, c1)) => match sep(s, c1, n == 1) { None => None, Some(c2) => read(s, child(t, n - 1), p.push((n - 1) as usize), m1, c2) } } } }
// n more fields, each one of those left
pub open spec fn read_f(s: Text, t: Type, p: Pos, m: Vals, c: Cur, left: Set<int>, first: bool, n: nat) -> Got decreases t, n via read_f_dec {
  if n == 0 || n > n_children(t) { Some((m, c)) } else { match sep(s, c, first) { None => None, Some(c1) => match find(t, c1.1, n_children(t)) { None => None, Some(i) => if 0 <= i < n_children(t) && left.contains(i) { match key_then(s, c1, c1.1) { None => None, Some(c2) =>
     match read(s, child(t, i), p.push(i as usize), m, c2) { None => None, Some((m3, c3)) => read_f(s, t, p, m3, c3, left.remove(i), false, (n - 1) as nat) } } } else { None } } } } }
#[via_fn] proof fn read_dec(s: Text, t: Type, p: Pos, m: Vals, c: Cur) { match t.kind { Kind::Enum(e) => { match tagged(s, c) { None => {}, Some((x, d)) => match find(t, x, n_children(t)) { None => {}, Some(i) => { if 0 <= i < n_children(t) { child_less(t, i); } } } } }, _ => {} } }
#[via_fn] proof fn read_n_dec(s: Text, t: Type, p: Pos, m: Vals, c: Cur, n: nat) { if n == 0 || n > n_children(t) {} else { child_less(t, n - 1); } }
#[via_fn] proof fn read_f_dec(s: Text, t: Type, p: Pos, m: Vals, c: Cur, left: Set<int>, first: bool, n: nat) { if n == 0 || n > n_children(t) {} else { match sep(s, c, first) { None => {}, Some(c1) => match find(t, c1.1, n_children(t)) { None => {}, Some(i) => { if 0 <= i < n_children(t) { child_less(t, i); } } } } } }
// structs of at most 64 fields
pub open spec fn small(t: Type) -> bool decreases t, n_children(t) + 1 via small_dec { (t.kind is Struct ==> n_children(t) <= 64) && small_n(t, n_children(t)) }
pub open spec fn small_n(t: Type, n: nat) -> bool decreases t, n via small_n_dec { n == 0 || n > n_children(t) || (small_n(t, (n - 1) as nat) && small(child(t, n - 1))) }
#[via_fn] proof fn small_dec(t: Type) {}
#[via_fn] proof fn small_n_dec(t: Type, n: nat) { if n == 0 || n > n_children(t) {} else { child_less(t, n - 1); } }
pub proof fn small_child(t: Type, n: nat, i: int) requires small_n(t, n), 0 <= i < n <= n_children(t) ensures small(child(t, i)) decreases n { if i < n - 1 { small_child(t, (n - 1) as nat, i); } }

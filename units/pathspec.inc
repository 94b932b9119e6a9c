// lexicographic order on sequences of positions
pub open spec fn agree(a: Pos, b: Pos, k: int) -> bool { 0 <= k <= a.len() && k <= b.len() && forall|i: int| 0 <= i < k ==> #[trigger] a[i] == b[i] }
pub open spec fn lt_at(a: Pos, b: Pos, k: int) -> bool { agree(a, b, k) && k < b.len() && (k < a.len() ==> a[k] < b[k]) }
pub open spec fn lt(a: Pos, b: Pos) -> bool { exists|k: int| #[trigger] lt_at(a, b, k) }
pub open spec fn prefix(a: Pos, b: Pos) -> bool { a.len() <= b.len() && agree(a, b, a.len() as int) }
pub proof fn lt_irreflexive(a: Pos, b: Pos) requires lt(a, b) ensures !lt(b, a), a != b
{ let k = choose|k: int| #[trigger] lt_at(a, b, k); 
  if lt(b, a) { let j = choose|j: int| #[trigger] lt_at(b, a, j); if j < k { assert(a[j] == b[j]); } else if k < j { assert(a[k] == b[k]); } } }
pub proof fn lt_transitive(a: Pos, b: Pos, c: Pos) requires lt(a, b), lt(b, c) ensures lt(a, c)
{ let k = choose|k: int| #[trigger] lt_at(a, b, k); let j = choose|j: int| #[trigger] lt_at(b, c, j); let n = if k < j { k } else { j };
  assert forall|i: int| 0 <= i < n implies #[trigger] a[i] == c[i] by { assert(b[i] == c[i]); }
  assert(agree(a, c, n)); 
  if k < j { assert(b[k] == c[k]); } else if j < k { assert(a[j] == b[j]); }
  assert(lt_at(a, c, n)); }
pub proof fn lt_total(a: Pos, b: Pos) ensures lt(a, b) || lt(b, a) || a == b { lt_total_from(a, b, 0); }
pub proof fn lt_total_from(a: Pos, b: Pos, k: int) requires agree(a, b, k) ensures lt(a, b) || lt(b, a) || a == b decreases a.len() - k
{ if k == a.len() && k == b.len() { assert(a =~= b); } else if k == a.len() { assert(lt_at(a, b, k)); } else if k == b.len() { assert(lt_at(b, a, k)); }
  else if a[k] < b[k] { assert(lt_at(a, b, k)); } else if a[k] > b[k] { assert(lt_at(b, a, k)); } else { lt_total_from(a, b, k + 1); } }
// a path sorts before each of its extensions
pub proof fn lt_extension(a: Pos, b: Pos) requires prefix(a, b), a != b ensures lt(a, b)
{ if a.len() == b.len() { assert(a =~= b); } assert(lt_at(a, b, a.len() as int)); }
pub open spec fn ord(a: Pos, b: Pos) -> cmp::Ordering { if a == b { cmp::Ordering::Equal } else if lt(a, b) { cmp::Ordering::Less } else { cmp::Ordering::Greater } }

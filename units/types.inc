// Types as data: the subset of Kind and Type is taken from core/types/mod.rs
pub type Text = Seq<char>;
pub open spec fn n_children(t: Type) -> nat { match t.kind { Kind::Enum(c) => c@.len(), Kind::Struct(f) => f@.len(), Kind::Tuple(e) => e@.len(), _ => 0 } }
pub open spec fn child(t: Type, i: int) -> Type { match t.kind { Kind::Enum(c) => *c@[i].typ, Kind::Struct(f) => *f@[i].typ, Kind::Tuple(e) => *e@[i], _ => t } }
// a sequence of positions that exists in the type, and the element it leads to
pub open spec fn leads(t: Type, p: Seq<usize>) -> bool decreases p.len()
{ p.len() == 0 || (p[0] < n_children(t) && leads(child(t, p[0] as int), p.skip(1))) }
pub open spec fn follow(t: Type, p: Seq<usize>) -> Type decreases p.len()
{ if p.len() == 0 { t } else { follow(child(t, p[0] as int), p.skip(1)) } }
pub proof fn follow_step(t: Type, p: Seq<usize>, k: int) requires leads(t, p), 0 <= k < p.len()
  ensures leads(t, p.take(k)), p[k] < n_children(follow(t, p.take(k))), leads(t, p.take(k + 1)), follow(t, p.take(k + 1)) == child(follow(t, p.take(k)), p[k] as int) decreases p.len()
{ reveal_with_fuel(follow, 3); reveal_with_fuel(leads, 3);
  let c = child(t, p[0] as int); let q = p.skip(1);
  if k == 0 { assert(p.take(0) =~= Seq::<usize>::empty()); assert(p.take(1).skip(1) =~= Seq::<usize>::empty()); assert(p.take(1)[0] == p[0]); }
  else { follow_step(c, q, k - 1); assert(p.take(k).skip(1) =~= q.take(k - 1)); assert(p.take(k + 1).skip(1) =~= q.take(k)); assert(q[k - 1] == p[k]); } }

== text
// ------------------------------------------------------------------ P14
#[verifier::external_body] pub struct BufferLock { x: u8 }
== type st BufferIndex
== const st NIL_BUFFER_INDEX
== type st BufferListLink
== type st BufferListHead
== type st BufferAccess
== type st Buffer
== text
pub open spec fn nil() -> u32 { 0xffff_ffffu32 }
// the list `h` over the buffers `b` is the sequence `s` of buffer numbers, read from either end
pub open spec fn node(b: Seq<Buffer>, s: Seq<u32>, i: int) -> bool {
  &&& s[i] < b.len() && s[i] != nil()
  &&& b[s[i] as int].link.next == (if i + 1 < s.len() { s[i + 1] } else { nil() })
  &&& b[s[i] as int].link.prev == (if i > 0 { s[i - 1] } else { nil() })
}
pub open spec fn is_list(h: BufferListHead, b: Seq<Buffer>, s: Seq<u32>) -> bool {
  &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] node(b, s, i)
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j]
  &&& h.head == (if s.len() > 0 { s[0] } else { nil() })
  &&& h.tail == (if s.len() > 0 { s[s.len() - 1] } else { nil() })
}
pub open spec fn unlinked(b: Buffer) -> bool { b.link.next == nil() && b.link.prev == nil() }
// all of a buffer except its links
pub open spec fn same_rest(a: Buffer, b: Buffer) -> bool {
  a.location == b.location && a.access == b.access && a.mapped == b.mapped && a.pinned == b.pinned && a.dirty == b.dirty && a.submitted == b.submitted
}
// only the members of s and the buffer x may have changed, and only in their links
pub open spec fn frame(b: Seq<Buffer>, c: Seq<Buffer>, s: Seq<u32>, x: u32) -> bool {
  &&& c.len() == b.len()
  &&& forall|k: int| 0 <= k < b.len() ==> same_rest(b[k], #[trigger] c[k])
  &&& forall|k: int| 0 <= k < b.len() && k != x && !(k <= u32::MAX && s.contains(k as u32)) ==> (#[trigger] c[k]).link == b[k].link
}
// hence any other list over the same buffers is unaffected
pub proof fn other_list(h: BufferListHead, b: Seq<Buffer>, c: Seq<Buffer>, s: Seq<u32>, x: u32, t: Seq<u32>)
  requires is_list(h, b, t), frame(b, c, s, x), !t.contains(x), forall|i: int| 0 <= i < t.len() ==> !s.contains(#[trigger] t[i])
  ensures is_list(h, c, t)
{ assert forall|i: int| 0 <= i < t.len() implies #[trigger] node(c, t, i) by { assert(node(b, t, i)); assert(t.contains(t[i])); } }
pub proof fn list_unique(h: BufferListHead, b: Seq<Buffer>, s: Seq<u32>, t: Seq<u32>)
  requires is_list(h, b, s), is_list(h, b, t)
  ensures s == t
{
  assert forall|n: int| 0 <= n && n < s.len() && n < t.len() implies #[trigger] s[n] == t[n] by { list_unique_upto(h, b, s, t, n); }
  if s.len() > 0 && t.len() > 0 { let n = if s.len() < t.len() { s.len() - 1 } else { t.len() - 1 }; assert(s[n] == t[n]); assert(node(b, s, n) && node(b, t, n)); 
    if n + 1 < s.len() { assert(node(b, s, n + 1)); } if n + 1 < t.len() { assert(node(b, t, n + 1)); } }
  if s.len() > 0 { assert(node(b, s, 0)); }
  if t.len() > 0 { assert(node(b, t, 0)); }
  assert(s =~= t);
}
pub proof fn list_unique_upto(h: BufferListHead, b: Seq<Buffer>, s: Seq<u32>, t: Seq<u32>, n: int)
  requires is_list(h, b, s), is_list(h, b, t), 0 <= n < s.len(), n < t.len()
  ensures s[n] == t[n]
  decreases n
{ if n > 0 { list_unique_upto(h, b, s, t, n - 1); assert(node(b, s, n - 1) && node(b, t, n - 1)); } }
pub open spec fn members(h: BufferListHead, b: Seq<Buffer>) -> Seq<u32> { choose|s: Seq<u32>| is_list(h, b, s) }
pub open spec fn listed(h: BufferListHead, b: Seq<Buffer>) -> bool { exists|s: Seq<u32>| is_list(h, b, s) }
pub open spec fn pushable(h: BufferListHead, b: Seq<Buffer>, index: u32) -> bool {
  listed(h, b) && index < b.len() && index != nil() && unlinked(b[index as int]) && !members(h, b).contains(index)
}
== text
pub open spec fn link_is(b: Buffer, prev: u32, next: u32) -> bool { b.link.prev == prev && b.link.next == next }
pub open spec fn in_or_nil(x: u32, b: Seq<Buffer>) -> bool { x == nil() || x < b.len() }
#[verifier::opaque] pub open spec fn pre(h: BufferListHead, b: Seq<Buffer>, s: Seq<u32>) -> bool { is_list(h, b, s) && s == members(h, b) }
pub open spec fn changed_push(h: BufferListHead, b: Seq<Buffer>, h2: BufferListHead, c: Seq<Buffer>, x: u32, front: bool) -> bool {
  let e = if front { h.head } else { h.tail };
  &&& c.len() == b.len()
  &&& forall|k: int| 0 <= k < b.len() ==> same_rest(b[k], #[trigger] c[k])
  &&& forall|k: int| 0 <= k < b.len() && k != x && !(e != nil() && k == e) ==> (#[trigger] c[k]).link == b[k].link
  &&& front ==> link_is(c[x as int], nil(), e) && h2.head == x && (if e != nil() { h2.tail == h.tail && link_is(c[e as int], x, b[e as int].link.next) } else { h2.tail == x })
  &&& !front ==> link_is(c[x as int], e, nil()) && h2.tail == x && (if e != nil() { h2.head == h.head && link_is(c[e as int], b[e as int].link.prev, x) } else { h2.head == x })
}
pub proof fn push_pre(h: BufferListHead, b: Seq<Buffer>, x: u32)
  requires pushable(h, b, x)
  ensures pre(h, b, members(h, b)), h.head == nil() <==> h.tail == nil(), in_or_nil(h.head, b), in_or_nil(h.tail, b), h.head != x, h.tail != x
{ let s = members(h, b); reveal(pre); assert(is_list(h, b, s)); if s.len() > 0 { assert(node(b, s, 0) && node(b, s, s.len() - 1)); assert(s.contains(s[0])); assert(s.contains(s[s.len() - 1])); } }
pub proof fn push_post(h: BufferListHead, b: Seq<Buffer>, h2: BufferListHead, c: Seq<Buffer>, x: u32, front: bool)
  requires pre(h, b, members(h, b)), pushable(h, b, x), changed_push(h, b, h2, c, x, front)
  ensures ({ let s = members(h, b); let t = if front { seq![x] + s } else { s.push(x) }; is_list(h2, c, t) && members(h2, c) == t && frame(b, c, s, x) })
{
  reveal(pre);
  let s = members(h, b); let t = if front { seq![x] + s } else { s.push(x) };
  assert forall|i: int| 0 <= i < s.len() implies s.contains(#[trigger] s[i]) && s[i] != x by {}
  if front { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == (if i == 0 { x } else { s[i - 1] }) by {} }
  assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by {}
  if s.len() > 0 { assert(node(b, s, 0)); assert(node(b, s, s.len() - 1)); }
  assert forall|i: int| 0 <= i < t.len() implies #[trigger] node(c, t, i) by {
    let o = if front { i - 1 } else { i };
    if 0 <= o < s.len() {
      assert(t[i] == s[o]); assert(node(b, s, o));
      if front { if o > 0 { assert(s[0] != s[o]); assert(t[i - 1] == s[o - 1]); } if o + 1 < s.len() { assert(t[i + 1] == s[o + 1]); } }
      else if o < s.len() - 1 { assert(s[o] != s[s.len() - 1]); }
    } else if front { assert(t[0] == x); if s.len() > 0 { assert(t[1] == s[0]); } }
  }
  assert(is_list(h2, c, t));
  assert(frame(b, c, s, x)) by {
    let e = if front { h.head } else { h.tail };
    if e != nil() { assert(s.contains(s[0])); assert(s.contains(s[s.len() - 1])); assert(s.contains(e)); }
    assert forall|k: int| 0 <= k < b.len() && k != x && !(k <= u32::MAX && s.contains(k as u32)) implies (#[trigger] c[k]).link == b[k].link by { if e != nil() && k == e { assert(k as u32 == e); } }
  }
  list_unique(h2, c, t, members(h2, c));
}
pub open spec fn changed_remove(h: BufferListHead, b: Seq<Buffer>, h2: BufferListHead, c: Seq<Buffer>, x: u32) -> bool {
  let n = b[x as int].link.next; let p = b[x as int].link.prev;
  &&& c.len() == b.len()
  &&& forall|k: int| 0 <= k < b.len() ==> same_rest(b[k], #[trigger] c[k])
  &&& forall|k: int| 0 <= k < b.len() && k != x && !(n != nil() && k == n) && !(p != nil() && k == p) ==> (#[trigger] c[k]).link == b[k].link
  &&& link_is(c[x as int], nil(), nil())
  &&& (if n != nil() { h2.tail == h.tail && link_is(c[n as int], p, b[n as int].link.next) } else { h2.tail == p })
  &&& (if p != nil() { h2.head == h.head && link_is(c[p as int], b[p as int].link.prev, n) } else { h2.head == n })
}
pub proof fn remove_pre(h: BufferListHead, b: Seq<Buffer>, x: u32)
  requires listed(h, b), members(h, b).contains(x)
  ensures pre(h, b, members(h, b)), x < b.len(), x != nil(), ({ let n = b[x as int].link.next; let p = b[x as int].link.prev; in_or_nil(n, b) && in_or_nil(p, b) && n != x && p != x && (n == p ==> n == nil()) })
{ let s = members(h, b); reveal(pre); assert(is_list(h, b, s)); let k = s.index_of(x); assert(s[k] == x); assert(node(b, s, k));
  if k > 0 { assert(node(b, s, k - 1)); } if k + 1 < s.len() { assert(node(b, s, k + 1)); }
  if k > 0 { assert(s[k - 1] != s[k]); } if k + 1 < s.len() { assert(s[k + 1] != s[k]); } if k > 0 && k + 1 < s.len() { assert(s[k - 1] != s[k + 1]); } }
pub proof fn remove_post(h: BufferListHead, b: Seq<Buffer>, h2: BufferListHead, c: Seq<Buffer>, x: u32)
  requires pre(h, b, members(h, b)), members(h, b).contains(x), changed_remove(h, b, h2, c, x)
  ensures ({ let s = members(h, b); let t = s.remove(s.index_of(x)); is_list(h2, c, t) && members(h2, c) == t && frame(b, c, s, x) && !t.contains(x) })
{
  reveal(pre);
  let s = members(h, b); let k = s.index_of(x); let t = s.remove(k);
  assert(0 <= k < s.len() && s[k] == x);
  assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == (if i < k { s[i] } else { s[i + 1] }) by {}
  assert forall|i: int| 0 <= i < s.len() && i != k implies #[trigger] s[i] != x by {}
  assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by {}
  assert(node(b, s, k));
  if k > 0 { assert(node(b, s, k - 1)); assert(s[k - 1] != s[k]); } if k + 1 < s.len() { assert(node(b, s, k + 1)); assert(s[k + 1] != s[k]); if k > 0 { assert(s[k - 1] != s[k + 1]); } }
  assert forall|i: int| 0 <= i < t.len() implies #[trigger] node(c, t, i) by {
      let o = if i < k { i } else { i + 1 }; assert(t[i] == s[o]); assert(node(b, s, o));
      if i + 1 < t.len() { assert(t[i + 1] == if i + 1 < k { s[i + 1] } else { s[i + 2] }); }
      if i > 0 { assert(t[i - 1] == if i - 1 < k { s[i - 1] } else { s[i] }); }
      if o != k + 1 && k + 1 < s.len() { assert(s[o] != s[k + 1]); }
      if o != k - 1 && k > 0 { assert(s[o] != s[k - 1]); }
  }
  assert(is_list(h2, c, t));
  assert(frame(b, c, s, x)) by { if k > 0 { assert(s.contains(s[k - 1])); } if k + 1 < s.len() { assert(s.contains(s[k + 1])); }
    assert forall|j: int| 0 <= j < b.len() && j != x && !(j <= u32::MAX && s.contains(j as u32)) implies (#[trigger] c[j]).link == b[j].link by { 
      if k > 0 && j == s[k - 1] { assert(j as u32 == s[k - 1]); } if k + 1 < s.len() && j == s[k + 1] { assert(j as u32 == s[k + 1]); } } }
  list_unique(h2, c, t, members(h2, c));
}
// ---- the same for all lists over the buffers at once
pub open spec fn apart(h: BufferListHead, b: Seq<Buffer>, g: BufferListHead) -> bool { forall|k: u32| #![trigger members(h, b).contains(k)] #![trigger members(g, b).contains(k)] !(members(h, b).contains(k) && members(g, b).contains(k)) }
pub open spec fn others_kept(b: Seq<Buffer>, c: Seq<Buffer>, g: BufferListHead, x: u32) -> bool {
  forall|h: BufferListHead| #![trigger listed(h, c)] #![trigger members(h, c)] listed(h, b) && apart(h, b, g) && !members(h, b).contains(x) ==> listed(h, c) && members(h, c) == members(h, b)
}
pub open spec fn now_in(h: BufferListHead, b: Seq<Buffer>, h2: BufferListHead, c: Seq<Buffer>, x: u32) -> bool {
  listed(h2, c) && (forall|k: u32| #[trigger] members(h2, c).contains(k) <==> members(h, b).contains(k) || k == x)
}
pub open spec fn now_out(h: BufferListHead, b: Seq<Buffer>, h2: BufferListHead, c: Seq<Buffer>, x: u32) -> bool {
  listed(h2, c) && (forall|k: u32| #[trigger] members(h2, c).contains(k) <==> members(h, b).contains(k) && k != x)
}
pub proof fn kept_all(b: Seq<Buffer>, c: Seq<Buffer>, g: BufferListHead, x: u32)
  requires listed(g, b), frame(b, c, members(g, b), x)
  ensures others_kept(b, c, g, x)
{
  let s = members(g, b); assert(is_list(g, b, s));
  assert forall|h: BufferListHead| listed(h, b) && apart(h, b, g) && !members(h, b).contains(x) implies #[trigger] listed(h, c) && members(h, c) == members(h, b) by {
    let t = members(h, b); assert(is_list(h, b, t));
    assert forall|i: int| 0 <= i < t.len() implies !s.contains(#[trigger] t[i]) by { assert(t.contains(t[i])); }
    other_list(h, b, c, s, x, t); list_unique(h, c, t, members(h, c));
  }
}
pub proof fn push_sets(h: BufferListHead, b: Seq<Buffer>, h2: BufferListHead, c: Seq<Buffer>, x: u32, front: bool)
  requires members(h2, c) == (if front { seq![x] + members(h, b) } else { members(h, b).push(x) }), is_list(h2, c, members(h2, c))
  ensures now_in(h, b, h2, c, x)
{ let s = members(h, b); let t = members(h2, c);
  assert forall|k: u32| #[trigger] t.contains(k) <==> s.contains(k) || k == x by {
    if front { assert(t[0] == x); } else { assert(t[s.len() as int] == x); }
    if s.contains(k) { let i = s.index_of(k); assert(t[if front { i + 1 } else { i }] == k); }
    if t.contains(k) { let i = t.index_of(k); if front { if i > 0 { assert(s[i - 1] == k); } } else { if i < s.len() { assert(s[i] == k); } } } } }
pub proof fn remove_sets(h: BufferListHead, b: Seq<Buffer>, h2: BufferListHead, c: Seq<Buffer>, x: u32)
  requires is_list(h, b, members(h, b)), members(h, b).contains(x), members(h2, c) == members(h, b).remove(members(h, b).index_of(x)), is_list(h2, c, members(h2, c))
  ensures now_out(h, b, h2, c, x)
{ let s = members(h, b); let t = members(h2, c); let j = s.index_of(x);
  assert forall|k: u32| #[trigger] t.contains(k) <==> s.contains(k) && k != x by {
    if s.contains(k) && k != x { let i = s.index_of(k); if i < j { assert(t[i] == k); } else { assert(t[i - 1] == k); } }
    if t.contains(k) { let i = t.index_of(k); if i < j { assert(s[i] == k); } else { assert(s[i + 1] == k); } } } }

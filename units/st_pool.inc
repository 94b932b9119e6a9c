== text
// ------------------------------------------------------------------ the pool as created
// stand-ins for external types the contracts do not look into (and the two they do: the mutex is its content, the map is empty when new)
pub struct VErr;
#[verifier::external_body] pub struct VMmap { x: u8 }
pub uninterp spec fn mem(m: VMmap) -> Seq<u8>;
#[verifier::external_body] pub struct VCond { x: u8 }
#[verifier::external_body] pub struct VWeakStore { x: u8 }
#[verifier::external_body] pub struct VWeakPool { x: u8 }
#[verifier::external_body] pub struct VStore { x: u8 }
#[verifier::external_body] pub struct VPool { x: u8 }
#[verifier::external_body] pub struct Volume { x: u8 }
#[verifier::external_body] pub struct VLocMap { x: u8 }
pub uninterp spec fn locmap(m: VLocMap) -> Map<Location, usize>;
pub struct VMutex<T> { pub inner: T }
pub fn vmutex<T>(t: T) -> (r: VMutex<T>) ensures r.inner == t { VMutex { inner: t } }
#[verifier::external_body] pub fn vmap_anon(n: usize) -> (r: Result<VMmap, VErr>) ensures r is Ok ==> mem(r->Ok_0).len() == n { panic!() }
#[verifier::external_body] pub fn vcond() -> (r: VCond) { panic!() }
#[verifier::external_body] pub fn vweak_store() -> (r: VWeakStore) { panic!() }
#[verifier::external_body] pub fn vweak_pool() -> (r: VWeakPool) { panic!() }
#[verifier::external_body] pub fn vdown_pool(p: &VPool) -> (r: VWeakPool) { panic!() }
#[verifier::external_body] pub fn vlocmap() -> (r: VLocMap) ensures locmap(r) == Map::<Location, usize>::empty() { panic!() }
#[verifier::external_body] pub fn verr(s: &str) -> (r: VErr) { panic!() }
pub open spec fn blank(b: Buffer) -> bool { unlinked(b) && blank_rest(b) }
pub open spec fn blank_rest(b: Buffer) -> bool { b.access is None && !b.mapped && !b.pinned && !b.dirty && !b.submitted }
pub open spec fn upto(n: int) -> Seq<u32> { Seq::new(n as nat, |i: int| i as u32) }
pub open spec fn empty_head(h: BufferListHead) -> bool { h.head == nil() && h.tail == nil() }
pub open spec fn fresh_pool(m: BufferPoolMapping, n: int) -> bool {
  &&& m.buffers@.len() == n
  &&& is_list(m.available_buffers, m.buffers@, upto(n))
  &&& is_list(m.in_use_buffers, m.buffers@, seq![]) && is_list(m.dirty_buffers, m.buffers@, seq![])
  &&& forall|k: int| 0 <= k < n ==> blank_rest(#[trigger] m.buffers@[k])
  &&& locmap(m.mapped_locations) == Map::<Location, usize>::empty() && m.read_write_locks@.len() == 0
}
== rewrite st
std::collections::BTreeMap<Location, usize>
=>
VLocMap
== rewrite st
std::collections::BTreeMap::new()
=>
vlocmap()
== rewrite st
async_std::sync::Mutex<BufferPoolMapping>
=>
VMutex<BufferPoolMapping>
== rewrite st
async_std::sync::Mutex::new($x)
=>
vmutex($x)
== rewrite st
memmap::MmapMut::map_anon($x)
=>
vmap_anon($x)
== rewrite st
memmap::MmapMut
=>
VMmap
== rewrite st
async_std::sync::Condvar::new()
=>
vcond()
== rewrite st
async_std::sync::Condvar
=>
VCond
== rewrite st
backing_store: std::sync::Weak::new()
=>
backing_store: vweak_store()
== rewrite st
buffer_pool: std::sync::Weak::new()
=>
buffer_pool: vweak_pool()
== rewrite st
std::sync::Weak<VolumeManager>
=>
VWeakStore
== rewrite st
std::sync::Weak<BufferPool>
=>
VWeakPool
== rewrite st
std::sync::Arc<BufferPool>
=>
VPool
== rewrite st
std::sync::Arc::downgrade(buffer_pool)
=>
vdown_pool(buffer_pool)
== rewrite st
std::io::Result<BufferPool>
=>
Result<BufferPool, VErr>
== rewrite st
errors::Result<VolumeIndex>
=>
Result<VolumeIndex, VErr>
== rewrite st
Err($lit.into())
=>
Err(verr($lit))
== rewrite st
$idv.resize_with($n, Buffer::default);
=>
vresize_buffers(&mut $idv, $n);
== type st BufferPoolMapping
== type st BufferPool

//! Storage: size arithmetic (P16), locations (P13), buffer lists (P14), volume numbers (P15)
use crate::{check, hash_of, quiet, Ctx};
use cathlamet::core::util;
use cathlamet::storage::verif as v;

// ---------------------------------------------------------------- P16
fn up(value: u128, alignment: u128) -> Option<u128> { let q = value / alignment + (value % alignment != 0) as u128; q.checked_mul(alignment) }
pub fn arith(c: &mut Ctx) {
    macro_rules! width { ($f:expr, $t:ty, $name:expr, $val:expr, $k:expr) => {{
        let value = $val as $t; let alignment = (1 as $t) << ($k % <$t>::BITS);
        if let Some(want) = up(value as u128, alignment as u128) { if want <= <$t>::MAX as u128 {
            c.case(hash_of(&($name, value, alignment)), value != 0 && alignment > 1, || format!("{}({}, {})", $name, value, alignment), || {
                let got = $f(value, alignment) as u128; check!(got == want, "gives {} instead of {}", got, want); Ok(()) });
        } }
    }} }
    fn bits(c: &mut Ctx, x: usize) {
        let mut want = 0; while want < 64 && x >> want != 0 { want += 1 }
        c.case(hash_of(&("bits", x)), x > 1, || format!("required_bits({})", x), || { let got = util::required_bits(x); check!(got == want, "gives {} instead of {}", got, want); Ok(()) });
    }
    fn blocks(c: &mut Ctx, size: u64, block: u64) {
        c.case(hash_of(&("blocks", size, block)), size > block, || format!("calc_file_blocks({}, {})", size, block), || {
            let n = v::calc_file_blocks(size, block) as u128; let (s, b) = (size as u128, block as u128);
            check!(n * b >= s && (n == 0 || (n - 1) * b < s), "{} blocks of {} bytes for {} bytes", n, block, size); Ok(()) });
    }
    fn volume(c: &mut Ctx, size: u64) {
        c.case(hash_of(&("volume", size)), true, || format!("VolumeParameters::new_with_defaults({})", size), || {
            let good = size % 4096 == 0 && size >= 4096 && size / 4096 <= 1 << 32;
            match quiet(|| v::VolumeParameters::new_with_defaults(size)) {
                Ok(p) => { check!(good, "accepted although it is not a usable size"); check!(p.volume_size == size && p.log_block_size < 63 && 1u64 << p.log_block_size == 4096 && p.log_file_header_size == 10, "gives {:?}", p); }
                Err(e) => check!(!good, "refused: {}", e),
            } Ok(()) });
    }
    for k in 0..8 { for x in 0..=255u64 { width!(v::align_u8, u8, "align_u8", x, k); } }
    for k in 0..16 { for x in 0..=65535u64 { if x < 600 || x > 64000 || x % 37 == 0 { width!(v::align_u16, u16, "align_u16", x, k); } } }
    for k in 0..64usize { for d in 0..5 { bits(c, (1usize << k).wrapping_add(d).wrapping_sub(2));
        c.case(hash_of(&("log2", k)), true, || format!("log2({})", 1usize << k), || { let got = util::log2(1usize << k); check!(got == k as u32, "gives {}", got); Ok(()) }); } }
    for b in 1..40u64 { for s in 0..200u64 { blocks(c, s, b) } }
    for x in [0, 1, 511, 512, 4095, 4096, 4097, 6144, 8191, 8192, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 43, (1 << 44) - 4096, 1 << 44, (1 << 44) + 4096, (1 << 44) + 8192, 1 << 45, u64::MAX, u64::MAX - 4095].iter() { volume(c, *x); }
    while c.time_left() {
        let x = c.rng.edgy(); let k = c.rng.below(128) as u32; let y = c.rng.edgy();
        width!(v::align_u8, u8, "align_u8", x, k); width!(v::align_u16, u16, "align_u16", x, k); width!(v::align_u32, u32, "align_u32", x, k);
        width!(v::align_u64, u64, "align_u64", x, k); width!(v::align_usize, usize, "align_usize", x, k); width!(util::align, usize, "align", x, k);
        let w = ((x as u128) << (y % 65)) | y as u128; width!(v::align_u128, u128, "align_u128", w, k);
        bits(c, x as usize); if y > 0 { blocks(c, x, y) }
        volume(c, x); volume(c, (x >> 12) << 12); volume(c, ((x >> 20) & 0x1_ffff_ffff) << 12);
    }
}

// ---------------------------------------------------------------- P13
pub fn locations(c: &mut Ctx) {
    let edge = |c: &mut Ctx| { let o = match c.rng.below(4) { 0 => c.rng.edgy(), 1 => (1 << 56) - 1 - c.rng.below(3) as u64, 2 => (1u64 << 56).wrapping_add(c.rng.below(3) as u64), _ => c.rng.edgy() & ((1 << 56) - 1) }; let v = match c.rng.below(3) { 0 => c.rng.below(3) as u8, 1 => 255 - c.rng.below(3) as u8, _ => c.rng.next() as u8 }; (v, o) };
    let mut last: Vec<(u8, u64)> = vec![];
    while c.time_left() {
        let (vol, o) = edge(c);
        c.case(hash_of(&(vol, o)), true, || format!("location of volume {} offset {}", vol, o), || {
            match quiet(|| v::Loc::new(vol, o)) {
                Ok(l) => { check!(o < 1 << 56, "an offset that does not fit is accepted"); check!(l.index() == vol && l.offset() == o, "reads back as volume {} offset {}", l.index(), l.offset()); }
                Err(e) => check!(o >= 1 << 56, "refused: {}", e),
            } Ok(()) });
        if o < 1 << 56 {
            let near = (vol, o ^ (1u64 << c.rng.below(56)));
            let mut others = last.clone(); others.push(near); others.push((vol.wrapping_add(1), o));
            for (w, p) in others { c.case(hash_of(&(vol, o, w, p)), true, || format!("locations ({}, {}) and ({}, {})", vol, o, w, p), || {
                let (a, b) = (v::Loc::new(vol, o), v::Loc::new(w, p));
                check!((a == b) == ((vol, o) == (w, p)), "equality"); check!(a.cmp(&b) == (vol, o).cmp(&(w, p)), "order: {:?}", a.cmp(&b)); check!(a.partial_cmp(&b) == Some(a.cmp(&b)) && (a < b) == ((vol, o) < (w, p)), "partial order"); Ok(()) }); }
            last.push((vol, o)); if last.len() > 4 { last.remove(0); }
        }
    }
}

// ---------------------------------------------------------------- P14
type State = (u8, u64, u8, bool);
fn consistent(l: &v::Lists, lists: &[Vec<u32>], states: &[State]) -> Result<(), String> {
    let mut linked = vec![false; l.len()];
    for (i, s) in lists.iter().enumerate() {
        let (h, t) = l.head(i);
        check!(h == *s.first().unwrap_or(&v::NIL) && t == *s.last().unwrap_or(&v::NIL), "list {} has head {} and tail {} instead of {:?}", i, h, t, s);
        for (k, x) in s.iter().enumerate() {
            let want = (if k > 0 { s[k - 1] } else { v::NIL }, *s.get(k + 1).unwrap_or(&v::NIL));
            check!(l.link(*x as usize) == want, "buffer {} in list {} ({:?}) is linked to {:?}", x, i, s, l.link(*x as usize));
            linked[*x as usize] = true;
        }
    }
    for k in 0..l.len() {
        if !linked[k] { check!(l.link(k) == (v::NIL, v::NIL), "free buffer {} is linked to {:?}", k, l.link(k)); }
        check!(l.state(k) == states[k], "state of buffer {} changed from {:?} to {:?}", k, states[k], l.state(k));
    }
    Ok(())
}
fn run_lists(buffers: usize, n: usize, ops: &[(u8, usize, usize)]) -> Result<(), String> {
    let mut l = v::Lists::new(buffers, n);
    let mut m: Vec<Vec<u32>> = vec![vec![]; n];
    for k in 0..buffers { l.set_state(k, k as u8, k as u64 * 4096, k as u8 & 15); }
    let states: Vec<State> = (0..buffers).map(|k| l.state(k)).collect();
    consistent(&l, &m, &states)?;
    for (op, list, x) in ops {
        let i = list % n; let x = x % buffers; let at = m.iter().position(|s| s.contains(&(x as u32)));
        match (op % 3, at) {
            (0, None) => { l.push_front(i, x as u32); m[i].insert(0, x as u32); }
            (1, None) => { l.push_back(i, x as u32); m[i].push(x as u32); }
            (_, Some(j)) => { l.remove(j, x as u32); m[j].retain(|y| *y != x as u32); }
            _ => continue,
        }
        consistent(&l, &m, &states).map_err(|e| format!("after {:?}: {}", (op, list, x), e))?;
    }
    Ok(())
}
pub fn lists(c: &mut Ctx) {
    for n in (1..40).chain(vec![64, 100, 1000, 70000]) {
        c.case(hash_of(&("pool", n)), n > 1, || format!("BufferPool::new(4096, {})", n), || {
            let p = v::Lists::pool(4096, n); check!(p.len() == n, "{} buffers", p.len());
            let blank = v::Lists::new(n, 0); let st: Vec<State> = (0..n).map(|k| blank.state(k)).collect();
            for k in 0..n { check!(p.state(k) == st[k] && st[k].2 == 0 && !st[k].3, "a new buffer is not free: {:?}", p.state(k)); }
            consistent(&p, &[(0..n as u32).collect(), vec![], vec![]], &st) });
    }
    // all short histories
    for len in 1..=4usize { let base = 3 * 2 * 3; let mut tot = 1usize; for _ in 0..len { tot *= base }
        for code in 0..tot { let mut x = code; let ops: Vec<(u8, usize, usize)> = (0..len).map(|_| { let y = x % base; x /= base; ((y % 3) as u8, y / 3 % 2, y / 6) }).collect();
            c.case(hash_of(&ops), len > 1, || format!("3 buffers, 2 lists, operations (0 front, 1 back, 2 remove; list; buffer) {:?}", ops), || run_lists(3, 2, &ops)); } }
    while c.time_left() {
        let b = 1 + c.rng.below(9); let n = 1 + c.rng.below(3); let len = 1 + c.rng.below(60);
        let ops: Vec<(u8, usize, usize)> = (0..len).map(|_| (c.rng.below(3) as u8, c.rng.below(n), c.rng.below(b))).collect();
        c.case(hash_of(&(b, n, &ops)), true, || format!("{} buffers, {} lists, operations (0 front, 1 back, 2 remove; list; buffer) {:?}", b, n, ops), || run_lists(b, n, &ops));
    }
}

// ---------------------------------------------------------------- P15
pub fn volumes(c: &mut Ctx) {
    for len in (1..300).chain(vec![511, 512, 513, 1000, 70000]) {
        c.case(hash_of(&len), len > 1, || format!("{} requests for a volume number", len), || {
            let mut m = v::Volumes::new(); let mut used = std::collections::HashSet::new();
            for i in 0..len { match m.next() {
                Some(x) => check!(used.insert(x), "request {} yields {} again", i, x),
                None => check!((0..255u8).all(|x| used.contains(&x)), "request {} is refused although only {} numbers are in use", i, used.len()),
            } } Ok(()) });
    }
}

// ---------------------------------------------------------------- P26
/// what the pool has to look like: the bytes of every location it holds, and its handles
struct Model { n: usize, size: usize, held: Vec<Held>, handles: Vec<Option<(usize, bool)>> }
struct Held { loc: (u8, u64), buffer: usize, bytes: Vec<u8> }
impl Model {
    fn open(&self, held: usize) -> (usize, usize) { let mut r = (0, 0); for h in self.handles.iter().flatten() { if h.0 == held { if h.1 { r.1 += 1 } else { r.0 += 1 } } } r }
    fn check(&self, s: &v::Session) -> Result<(), String> {
        let l = match s.lists() { Some(l) => l, None => return Err("the pool stays locked".into()) };
        let mut all: Vec<u32> = l.concat(); all.sort();
        check!(all == (0..self.n as u32).collect::<Vec<_>>(), "the lists of available, used and dirty buffers are {:?}", l);
        for (k, x) in self.held.iter().enumerate() {
            let used = self.open(k) != (0, 0);
            check!(l[if used { 1 } else { 2 }].contains(&(x.buffer as u32)), "buffer {} of {:?} {} but the lists are {:?}", x.buffer, x.loc, if used { "has open handles" } else { "was written and is not in use" }, l);
        }
        check!(l[0].len() == self.n - self.held.len(), "{} locations are held in {} buffers but {:?} are available", self.held.len(), self.n, l[0]);
        for (id, h) in self.handles.iter().enumerate() { if let Some((k, _)) = h {
            let x = &self.held[*k];
            check!(s.buffer(id) == x.buffer, "handle {} of {:?} moved from buffer {} to {}", id, x.loc, x.buffer, s.buffer(id));
            check!(s.content(id) == x.bytes, "{:?} reads {:?} instead of {:?}", x.loc, s.content(id), x.bytes);
        } }
        Ok(())
    }
}
fn run_pool(n: usize, size: usize, ops: &[(u8, usize, usize)], wait: bool) -> Result<(), String> {
    let locs: Vec<(u8, u64)> = (0..6).map(|k| ((k % 2) as u8, (k / 2) as u64 * size as u64)).collect();
    v::pool_session(size, n, |s| {
        let mut m = Model { n, size, held: vec![], handles: vec![] };
        m.check(s)?;
        for (op, x, y) in ops {
            let step = || format!("after {:?}", (op, x, y));
            match op % 4 {
                // open
                0 | 1 => {
                    let loc = locs[x % locs.len()]; let known = m.held.iter().position(|h| h.loc == loc);
                    let (readers, writers) = known.map_or((0, 0), |k| m.open(k));
                    let write = op % 4 == 0 || known.is_none();
                    if writers > 0 || write && readers > 0 { continue }
                    if known.is_none() && m.held.len() == n {
                        if wait { check!(s.initialize(loc.0, loc.1).is_none(), "{}: {:?} gets a buffer although all hold something", step(), loc); m.check(s)?; return Ok(()) }
                        continue;
                    }
                    let id = match (write, known, y % 2) { (true, None, _) | (true, _, 0) => s.initialize(loc.0, loc.1), (true, _, _) => s.read_write(loc.0, loc.1), _ => s.read_only(loc.0, loc.1) };
                    let id = match id { Some(id) => id, None => return Err(format!("{}: {:?} has to wait although {}", step(), loc, if known.is_some() { "nobody else uses it" } else { "buffers are available" })) };
                    let b = s.buffer(id);
                    check!(b < n, "{}: buffer {} of {}", step(), b, n);
                    let k = match known { Some(k) => k, None => { check!(m.held.iter().all(|h| h.buffer != b), "{}: {:?} gets buffer {}, which holds another location", step(), loc, b); m.held.push(Held { loc, buffer: b, bytes: vec![0; m.size] }); m.held.len() - 1 } };
                    m.handles.push(Some((k, write))); check!(m.handles.len() == id + 1, "handle number");
                }
                // write
                2 => { let w: Vec<usize> = (0..m.handles.len()).filter(|i| matches!(m.handles[*i], Some((_, true)))).collect(); if w.is_empty() { continue } let id = w[x % w.len()]; let k = m.handles[id].unwrap().0; let at = [0, m.size - 1, y % m.size][y % 3]; s.write(id, at, *y as u8 | 1); m.held[k].bytes[at] = *y as u8 | 1; }
                // release
                _ => { let w: Vec<usize> = (0..m.handles.len()).filter(|i| m.handles[*i].is_some()).collect(); if w.is_empty() { continue } let id = w[x % w.len()]; check!(s.release(id).is_some(), "{}: the release hangs", step()); m.handles[id] = None; }
            }
            m.check(s).map_err(|e| format!("{}: {}", step(), e))?;
        }
        Ok(())
    })
}
pub fn pool(c: &mut Ctx) {
    let text = "operations (0 open to write, 1 open to read, 2 write, 3 release; which location or handle; which byte)";
    for n in 1..=2usize { for code in 0..(8usize.pow(4)) { let mut x = code; let mut ops = vec![(0u8, 0usize, 0usize), (2, 0, 1)]; for _ in 0..4 { let y = x % 8; x /= 8; ops.push(((y % 4) as u8, y / 4, 7)) }
        c.case(hash_of(&(n, &ops)), true, || format!("pool of {} buffers, {} {:?}", n, text, ops), || run_pool(n, 16, &ops, false)); } }
    for n in 1..=3usize { let ops: Vec<(u8, usize, usize)> = (0..=n).map(|k| (0, k, 0)).collect(); c.case(hash_of(&("full", n)), true, || format!("pool of {} buffers, {} locations opened", n, n + 1), || run_pool(n, 16, &ops, true)); }
    while c.time_left() {
        let n = 1 + c.rng.below(6); let len = 1 + c.rng.below(40); let size = 1 << (3 + c.rng.below(4));
        let ops: Vec<(u8, usize, usize)> = (0..len).map(|_| (c.rng.below(4) as u8, c.rng.below(6), c.rng.below(64))).collect();
        c.case(hash_of(&(n, size, &ops)), true, || format!("pool of {} buffers of {} bytes, {} {:?}", n, size, text, ops), || run_pool(n, size, &ops, false));
    }
}

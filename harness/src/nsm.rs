//! Row pages against a plain list of byte strings.
use crate::*;
use cathlamet::core::nsm::PageFormat;

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Op { Append(Vec<u8>), Insert(usize, Vec<u8>), Remove(usize) }

pub struct Page { buf: Vec<u8>, at: usize, len: usize, pub al: usize, fmt: PageFormat, pub rows: Vec<Vec<u8>> }
fn up(n: usize, a: usize) -> usize { (n + a - 1) / a * a }

impl Page {
    pub fn new(len: usize, al: usize, shift: usize, fill: u8) -> Page {
        let buf = vec![fill; len + shift + 24];
        let mut p = Page { buf, at: shift + 8, len, al, fmt: PageFormat::new(al), rows: vec![] };
        let f = PageFormat::new(al); f.initialize_page(p.page_mut()); p
    }
    fn page_mut(&mut self) -> &mut [u8] { let (a, l) = (self.at, self.len); &mut self.buf[a..a + l] }
    pub fn page(&self) -> &[u8] { &self.buf[self.at..self.at + self.len] }
    pub fn stored(&self) -> usize { self.rows.iter().map(|r| up(r.len(), self.al)).sum() }
    /// page size less directory less stored rows, rounded to the alignment
    pub fn capacity(&self) -> usize { (self.len - self.stored()).saturating_sub(up(4 * (self.rows.len() + 2), self.al)) }
    pub fn fits(&self, n: usize) -> bool { n <= self.capacity() && (n > 0 || 4 * (self.rows.len() + 2) + self.stored() <= self.len) }
    pub fn check(&self) -> Result<(), String> {
        let before = self.buf.clone();
        let f = &self.fmt;
        check!(f.num_rows(self.page()) == self.rows.len(), "num_rows {} instead of {}", f.num_rows(self.page()), self.rows.len());
        for (i, r) in self.rows.iter().enumerate() {
            let g = quiet(|| f.get_row(self.page(), i).to_vec()).map_err(|e| format!("get_row({}) crashed: {}", i, e))?;
            check!(&g == r, "row {} is {:?} instead of {:?}", i, g, r);
        }
        check!(self.buf == before, "reading changed the page");
        Ok(())
    }
    pub fn max(&self) -> usize { self.fmt.max_insert_row_size(self.page()) }
    /// runs the operation on the real page; Err = refused
    pub fn run(&mut self, op: &Op) -> Result<(), String> {
        let fmt = PageFormat::new(self.al);
        let (a, l) = (self.at, self.len);
        let p = &mut self.buf[a..a + l];
        quiet(move || match op { Op::Append(r) => fmt.append_row(p, r), Op::Insert(i, r) => fmt.insert_row(p, *i, r), Op::Remove(i) => fmt.remove_row(p, *i) })
    }
    pub fn model(&mut self, op: &Op) { match op { Op::Append(r) => self.rows.push(r.clone()), Op::Insert(i, r) => self.rows.insert(*i, r.clone()), Op::Remove(i) => { self.rows.remove(*i); } } }
    pub fn guards(&self, fill: u8) -> Result<(), String> {
        check!(self.buf[..self.at].iter().all(|b| *b == fill) && self.buf[self.at + self.len..].iter().all(|b| *b == fill), "bytes outside the page changed");
        Ok(())
    }
    pub fn snapshot(&self) -> Vec<u8> { self.buf.clone() }
}

/// P01: every operation the model accepts must behave as on the list
pub fn history(len: usize, al: usize, shift: usize, ops: &[Op]) -> Result<(), String> {
    let mut p = Page::new(len, al, shift, 0xA5);
    p.check()?;
    for (k, op) in ops.iter().enumerate() {
        let ok = match op { Op::Append(r) => p.fits(r.len()), Op::Insert(i, r) => *i <= p.rows.len() && p.fits(r.len()), Op::Remove(i) => *i < p.rows.len() };
        if !ok { continue; }
        match p.run(op) { Ok(()) => p.model(op), Err(e) => return Err(format!("step {}: {:?} failed on a page with room for it: {}", k, op, e)) }
        p.check().map_err(|e| format!("after step {} {:?}: {}", k, op, e))?;
        p.guards(0xA5).map_err(|e| format!("after step {} {:?}: {}", k, op, e))?;
    }
    Ok(())
}
/// P02: reported space, acceptance and refusal
pub fn space(len: usize, al: usize, shift: usize, ops: &[Op]) -> Result<(), String> {
    let mut p = Page::new(len, al, shift, 0x5A);
    for (k, op) in ops.iter().enumerate() {
        let m = p.max();
        check!(m == p.capacity(), "step {}: max_insert_row_size {} but page size - directory - rows leaves {}", k, m, p.capacity());
        // refusals: longer rows, and empty rows without directory room, through both ways of adding
        let n = p.rows.len();
        let mut bad: Vec<Op> = vec![];
        for extra in [1usize, 2, al, 4 * n + 64] { bad.push(Op::Append(vec![9; m + extra])); bad.push(Op::Insert(0, vec![9; m + extra])); bad.push(Op::Insert(n / 2, vec![9; m + extra])); }
        if !p.fits(0) { bad.push(Op::Append(vec![])); bad.push(Op::Insert(0, vec![])); bad.push(Op::Insert(n, vec![])); }
        let snap = p.snapshot();
        for b in &bad {
            check!(p.run(b).is_err(), "step {}: {} accepted although the page has room for {} (rows: {:?})", k, short(b), m, p.rows.iter().map(|r| r.len()).collect::<Vec<_>>());
            check!(p.snapshot() == snap, "step {}: refused {} but changed the page", k, short(b));
        }
        // a row of exactly the reported size is accepted (on a copy)
        if p.fits(m) {
            for b in [Op::Append(vec![7; m]), Op::Insert(0, vec![7; m])] {
                let mut q = Page { buf: p.buf.clone(), at: p.at, len: p.len, al, fmt: PageFormat::new(al), rows: p.rows.clone() };
                if let Err(e) = q.run(&b) { return Err(format!("step {}: {} refused although {} bytes are reported free: {}", k, short(&b), m, e)); }
                q.model(&b); q.check().map_err(|e| format!("step {}: after {}: {}", k, short(&b), e))?; q.guards(0x5A)?;
            }
        }
        let ok = match op { Op::Append(r) => p.fits(r.len()), Op::Insert(i, r) => *i <= n && p.fits(r.len()), Op::Remove(i) => *i < n };
        if ok { match p.run(op) { Ok(()) => p.model(op), Err(e) => return Err(format!("step {}: {} refused although {} bytes are free: {}", k, short(op), m, e)) } p.check().map_err(|e| format!("after step {} {}: {}", k, short(op), e))?; }
    }
    Ok(())
}
fn short(o: &Op) -> String { match o { Op::Append(r) => format!("append of {} bytes", r.len()), Op::Insert(i, r) => format!("insert at {} of {} bytes", i, r.len()), Op::Remove(i) => format!("remove {}", i) } }

pub fn drive(ctx: &mut Ctx, f: fn(usize, usize, usize, &[Op]) -> Result<(), String>) {
    // every short history over a small alphabet
    let sizes: Vec<usize> = vec![0, 1, 3, 4];
    let depth = if ctx.thorough { 5 } else { 4 };
    for (len, al) in [(24usize, 1usize), (28, 4), (32, 2), (32, 8), (64, 16)] {
        let mut alpha: Vec<Op> = vec![];
        for s in &sizes { alpha.push(Op::Append(vec![1 + *s as u8; *s])); for i in 0..2 { alpha.push(Op::Insert(i, vec![0x40 + 16 * i as u8 + *s as u8; *s])); } }
        for i in 0..3 { alpha.push(Op::Remove(i)); }
        let n = alpha.len();
        for d in 1..=depth {
            let total = n.pow(d as u32);
            for code in 0..total {
                let mut c = code; let mut ops = vec![];
                for _ in 0..d { ops.push(alpha[c % n].clone()); c /= n; }
                let shift = code % 4;
                ctx.case(hash_of(&(len, al, &ops)), d > 1, || format!("page of {} bytes, alignment {}, address shift {}, operations {:?}", len, al, shift, ops), || f(len, al, shift, &ops));
                if ctx.frac() > 0.5 { break; }
            }
            if ctx.frac() > 0.5 { break; }
        }
    }
    // random histories
    while ctx.time_left() {
        let al = 1usize << ctx.rng.below(13);
        let big = ctx.rng.chance(1, 4); let len = al * (1 + ctx.rng.below(if big { 256 } else { 24 }));
        if len < 8 || len > 40000 { continue; }
        let shift = ctx.rng.below(9);
        let steps = 1 + ctx.rng.below(40);
        let mut n: usize = 0; let mut ops = vec![];
        let style = ctx.rng.below(4);
        for _ in 0..steps {
            let st = if style == 3 { ctx.rng.below(3) } else { style }; let sz = match st { 0 => ctx.rng.below(4), 1 => ctx.rng.below(len / 4 + 1), _ => *ctx.rng.pick(&[0, 1, al - 1, al, al + 1, len / 8, len / 3]) };
            let row: Vec<u8> = (0..sz).map(|_| ctx.rng.next() as u8).collect();
            match ctx.rng.below(if n > 3 { 4 } else { 3 }) {
                0 => { ops.push(Op::Append(row)); n += 1; }
                1 => { let i = ctx.rng.below(n + 1); ops.push(Op::Insert(i, row)); n += 1; }
                2 if n == 0 => { ops.push(Op::Append(row)); n += 1; }
                _ => { let i = if ctx.rng.chance(1, 3) { n.saturating_sub(1 + ctx.rng.below(2)) } else { ctx.rng.below(n) }; ops.push(Op::Remove(i)); n = n.saturating_sub(1); }
            }
        }
        ctx.case(hash_of(&(len, al, &ops)), true, || format!("page of {} bytes, alignment {}, address shift {}, operations {:?}", len, al, shift, ops), || f(len, al, shift, &ops));
    }
}

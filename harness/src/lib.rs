//! Executable form of the contracts: runs the real crate against plain models, looking for a
//! concrete input that breaks a contract.  One binary per property.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
pub mod nsm;
pub mod json;
pub mod records;
pub mod sql;
pub mod storage;
pub mod types;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    /// integers that cluster around powers of two and the ends of the range
    pub fn edgy(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(20) as u64,
            1 => (1u64 << self.below(64)).wrapping_add(self.below(3) as u64).wrapping_sub(1),
            2 => u64::MAX - self.below(20) as u64,
            3 => self.next() >> self.below(64),
            4 => (self.next() >> self.below(64)) & !((1u64 << self.below(20)) - 1),
            _ => self.next(),
        }
    }
}

pub struct Ctx { pub prop: String, pub seed: u64, pub thorough: bool, pub rng: Rng, pub evals: u64, distinct: HashSet<u64>, pub samples: Vec<String>, start: Instant, budget: Duration, trace: Option<String>, replay: String, stats: String, known: Vec<String>, pub known_hit: HashSet<String> }

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }),
    }
}

impl Ctx {
    pub fn new(prop: &str) -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
        let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = a.iter().any(|x| x == "--thorough");
        let budget = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(20.0);
        std::panic::set_hook(Box::new(|_| {}));
        let known = get("--known").and_then(|f| std::fs::read_to_string(f).ok()).map(|t| t.lines().map(|s| s.to_string()).collect()).unwrap_or_default();
        Ctx { prop: prop.into(), seed, thorough, rng: Rng(seed.wrapping_mul(0x5851F42D4C957F2D) ^ 0x1234567), evals: 0, distinct: HashSet::new(), samples: vec![], start: Instant::now(), budget: Duration::from_secs_f64(budget), trace: get("--trace"), replay: get("--replay").unwrap_or("/dev/null".into()), stats: get("--stats").unwrap_or("/dev/null".into()), known, known_hit: HashSet::new() }
    }
    pub fn time_left(&self) -> bool { self.start.elapsed() < self.budget }
    pub fn frac(&self) -> f64 { self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64() }
    /// One evaluation.  `key` identifies it (only counted when `nontrivial`).
    pub fn case(&mut self, key: u64, nontrivial: bool, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        self.evals += 1;
        if let Some(t) = &self.trace { let _ = std::fs::write(t, format!("{}\n", desc())); }
        if nontrivial && self.distinct.len() < 3_000_000 { self.distinct.insert(key); }
        if self.samples.len() < 5 && nontrivial && (self.evals as usize) > self.samples.len() * 97 { let mut d = desc(); if d.len() > 600 { let mut n = 600; while !d.is_char_boundary(n) { n -= 1 } d.truncate(n); } self.samples.push(d); }
        let r = match quiet(f) { Ok(r) => r, Err(p) => Err(format!("crashed: {}", p)) };
        if let Err(e) = r { self.fail(&desc(), &e); }
    }
    pub fn fail(&mut self, input: &str, what: &str) {
        for k in &self.known {
            // known finding: "<tag> <text>": the text must occur in the failure description
            if !k.is_empty() && (what.contains(k.as_str()) ) { self.known_hit.insert(k.clone()); return; }
        }
        let t = format!("property: {}\nseed: {}\ninput: {}\nfails: {}\n", self.prop, self.seed, input, what);
        let _ = std::fs::write(&self.replay, &t);
        println!("{}", t);
        self.finish_stats();
        std::process::exit(10);
    }
    fn finish_stats(&self) {
        let esc = |s: &str| { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o };
        let s = format!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}], \"known_hit\": [{}]}}\n", self.evals, self.distinct.len(), self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "), self.known_hit.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
        let _ = std::fs::write(&self.stats, s);
    }
    pub fn done(self) -> ! { self.finish_stats(); println!("{}: {} evaluations, {} distinct", self.prop, self.evals, self.distinct.len()); std::process::exit(0) }
}
pub fn hash_of<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

#[macro_export]
macro_rules! check { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

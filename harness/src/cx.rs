//! What every check shares: its share of the work, its record of what it saw, input making.
use crate::ops::*;
use crate::rng::*;
use crate::sut::*;
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

pub struct Args { pub prop: String, pub seed: u64, pub thorough: bool, pub shard: usize, pub shards: usize, pub out: String, pub scratch: String, pub work: u64, pub secs: u64, pub only: Option<String> }
pub struct Viol { pub sig: String, pub text: String, pub replay: Vec<(String, String)> }
pub struct Cx {
    pub a: Args,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub viols: Vec<Viol>,
    pub sigs: HashSet<String>,
    pub start: Instant,
    sample_rng: Rng,
    pub capped: bool,
    /// put before every signature
    pub prefix: String,
}
impl Cx {
    pub fn new(a: Args) -> Cx {
        let r = Rng::derive(a.seed, &[77, a.shard as u64]);
        Cx { a, evals: 0, distinct: HashSet::new(), samples: vec![], counters: BTreeMap::new(), viols: vec![], sigs: HashSet::new(), start: Instant::now(), sample_rng: r, capped: false, prefix: String::new() }
    }
    pub fn rng(&self, parts: &[u64]) -> Rng { let mut p = vec![hash_bytes(1, self.a.prop.as_bytes())]; p.extend_from_slice(parts); Rng::derive(self.a.seed, &p) }
    pub fn mine(&self, i: usize) -> bool { i % self.a.shards == self.a.shard }
    pub fn late(&mut self) -> bool { if self.start.elapsed().as_secs() >= self.a.secs { self.capped = true; true } else { false } }
    pub fn count(&mut self, k: &str, n: u64) { if n > 0 { if let Some(c) = self.counters.get_mut(k) { *c += n } else { self.counters.insert(k.to_string(), n); } } }
    /// One evaluated case; `key` identifies it, `nontrivial` whether it counts as such.
    pub fn eval(&mut self, key: u64, nontrivial: bool) { self.evals += 1; if nontrivial { self.distinct.insert(key); } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 || (self.samples.len() < 6 && self.sample_rng.one_in(4000)) { let mut s = f(); if s.len() > 400 { s = s.chars().take(400).collect(); } self.samples.push(s); }
    }
    pub fn viol(&mut self, sig: impl Into<String>, text: impl Into<String>, replay: &[(&str, String)]) {
        let sig = format!("{}{}", self.prefix, sig.into());
        self.count("violations", 1);
        if self.viols.len() < 40 && self.sigs.insert(sig.clone()) {
            let text = text.into();
            eprintln!("violation: {sig}: {text}");
            self.viols.push(Viol { sig, text, replay: replay.iter().map(|(a, b)| (a.to_string(), b.clone())).collect() });
        }
    }
    pub fn scratch(&self, n: &str) -> std::path::PathBuf { std::path::Path::new(&self.a.scratch).join(format!("{}-{}", self.a.shard, n)) }
    pub fn finish(&self) {
        let mut o = String::from("{");
        o += &format!("\"evals\":{},\"distinct\":{},\"capped\":{},\"calls\":{},\"samples\":[{}],", self.evals, self.distinct.len(), self.capped, calls(), self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        o += &format!("\"counters\":{{{}}},", self.counters.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        o += &format!("\"violations\":[{}]}}", self.viols.iter().map(|v| format!("{{\"sig\":{},\"text\":{},\"replay\":{{{}}}}}", js(&v.sig), js(&v.text), v.replay.iter().map(|(a, b)| format!("{}:{}", js(a), js(b))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        if self.a.out.is_empty() { println!("{o}"); } else { std::fs::write(&self.a.out, o).unwrap(); }
    }
    /// The types this shard looks after.
    pub fn ops(&self, all: &[Box<dyn Ops>]) -> Vec<usize> {
        (0..all.len()).filter(|&i| self.mine(i) && self.a.only.as_ref().map_or(true, |o| all[i].name() == o)).collect()
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o.push('"');
    o
}

/// A buffer of exactly the data, starting at a chosen offset from a 16-byte boundary, so that
/// sanitizers notice any access behind it.
pub struct Placed { base: *mut u8, layout: std::alloc::Layout, at: usize, n: usize }
impl Placed {
    pub fn new(data: &[u8], off: usize) -> Placed {
        let at = off % 16;
        let layout = std::alloc::Layout::from_size_align((at + data.len()).max(1), 16).unwrap();
        unsafe {
            let base = std::alloc::alloc(layout);
            assert!(!base.is_null());
            std::ptr::write_bytes(base, 0xCC, layout.size());
            std::ptr::copy_nonoverlapping(data.as_ptr(), base.add(at), data.len());
            Placed { base, layout, at, n: data.len() }
        }
    }
}
impl Drop for Placed { fn drop(&mut self) { unsafe { std::alloc::dealloc(self.base, self.layout) } } }
impl std::ops::Deref for Placed { type Target = [u8]; fn deref(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.base.add(self.at), self.n) } } }

pub fn budget(r: &mut Rng) -> i64 { if cfg!(miri) { return *r.pick(&[6, 12, 12, 30]) } match r.below(24) { 0 => 20_000, 1 | 2 => 4_000, 3..=6 => 600, 7..=14 => 120, _ => 40 } }

/// A valid wire encoding of some value of the type, by the reference encoder.
pub fn valid(op: &dyn Ops, r: &mut Rng, be: bool, budget: i64) -> Vec<u8> {
    for _ in 0..20 {
        let mut o = None;
        op.with_value(Rng::new(r.u64()), budget, PLAIN, &mut |v| { let e = v.wire(be); if e.bad.is_none() { o = Some(e.out) } });
        if let Some(o) = o { return o; }
    }
    panic!("no valid value for {}", op.name());
}
/// An encoding in which a few neighbouring numbers were replaced by extreme ones.
pub fn wild(op: &dyn Ops, r: &mut Rng, be: bool, budget: i64) -> Vec<u8> {
    let mut o = (vec![], vec![]);
    for _ in 0..20 {
        op.with_value(Rng::new(r.u64()), budget, PLAIN, &mut |v| { let e = v.wire(be); if e.bad.is_none() { o = (e.out, e.nums) } });
        if !o.1.is_empty() { break }
    }
    let (mut d, nums) = o;
    if nums.is_empty() { return d }
    let first = r.us(nums.len());
    for &(i, w) in nums.iter().skip(first).take(1 + r.us(5)) {
        if i + w > d.len() { continue }
        let top = if w >= 16 { !0u128 } else { (1 << (8 * w)) - 1 };
        let v = match r.below(8) { 0 => 0, 1 | 2 => top, 3 => top >> 1, 4 => (top >> 1) + 1, 5 => top - r.below(3) as u128, _ => *r.pick(&INTERESTING) as u128 };
        let b = v.to_le_bytes();
        d[i..i + w].copy_from_slice(&b[..w]);
        if be { d[i..i + w].reverse(); }
    }
    d
}
pub const INTERESTING: [u64; 30] = [999_999_999, 1_000_000_000, 1_999_999_999, 4_000_000_000, 1 << 62, !0 >> 1, 0, 1, 2, 3, 4, 5, 7, 8, 16, 127, 128, 255, 256, 257, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 1 << 32, 1 << 63, !0];
pub fn mutate(r: &mut Rng, d: &mut Vec<u8>) {
    for _ in 0..1 + r.below(3) {
        let n = d.len();
        match r.below(12) {
            0 if n > 0 => { let i = r.us(n); d[i] ^= 1 << r.below(8); }
            1 if n > 0 => { let i = r.us(n); d[i] = r.u64() as u8; }
            2 if n > 0 => { let i = r.us(n); d[i] = *r.pick(&[0, 1, 2, 3, 0x7F, 0x80, 0xC0, 0xED, 0xF4, 0xFE, 0xFF]); }
            3 if n > 0 => { let k = r.us(n + 1); d.truncate(k); }
            4 => { for _ in 0..1 + r.below(9) { d.push(r.u64() as u8); } }
            5 | 6 if n > 1 => {
                // overwrite what may be a length, at either end or anywhere
                let w = *r.pick(&[2usize, 4, 4, 4, 8]);
                if w <= n {
                    let i = if r.bool() { 0 } else { r.us(n - w + 1) };
                    let v = if r.bool() { *r.pick(&INTERESTING) } else { r.below(40) };
                    let b = v.to_le_bytes();
                    for k in 0..w { d[i + k] = b[k]; }
                    if r.bool() { d[i..i + w].reverse(); }
                }
            }
            7 if n > 1 => { let i = r.us(n); let k = 1 + r.us((n - i).min(8)); d.drain(i..i + k); }
            8 if n > 0 => { let i = r.us(n); let k = 1 + r.us((n - i).min(8)); let s = d[i..i + k].to_vec(); let j = r.us(n + 1); d.splice(j..j, s); }
            9 if n > 0 => { let i = r.us(n); let k = 1 + r.us((n - i).min(16)); let v = *r.pick(&[0u8, 0xFF, 1]); for x in &mut d[i..i + k] { *x = v; } }
            10 if n > 3 => { let i = r.us(n - 3); let v = u32::from_le_bytes(d[i..i + 4].try_into().unwrap()).wrapping_add(*r.pick(&[1, !0, 2, 1 << 24, !(1 << 24)])); d[i..i + 4].copy_from_slice(&v.to_le_bytes()); }
            _ if n > 1 => { let (i, j) = (r.us(n), r.us(n)); d.swap(i, j); }
            _ => d.push(r.u64() as u8),
        }
    }
}
/// An input for a type: valid, damaged or arbitrary. The label says how it was made.
pub fn input(op: &dyn Ops, r: &mut Rng, be: bool) -> (Vec<u8>, &'static str) {
    match r.below(16) {
        0..=3 => { let b = budget(r); (valid(op, r, be, b), "valid") }
        4..=10 => { let b = budget(r); let mut d = valid(op, r, be, b); mutate(r, &mut d); (d, "mutated") }
        11 => { let b = budget(r); (wild(op, r, be, b), "wild") }
        12 => { let b = budget(r); let mut d = valid(op, r, be, b); let n = r.us(d.len() + 1); d.truncate(n); (d, "truncated") }
        13 => { let b = budget(r); let mut d = valid(op, r, be, b); for _ in 0..r.us(40) { d.push(r.u64() as u8) } (d, "extended") }
        14 => { let n = r.us(24); ((0..n).map(|_| *r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 4, 0x20, 0x7F, 0x80, 0xFF])).collect(), "small bytes") }
        _ => { let n = match r.below(4) { 0 => r.us(4), 1 => r.us(16), 2 => r.us(64), _ => r.us(400) }; ((0..n).map(|_| r.u64() as u8).collect(), "random") }
    }
}
pub fn key(op: usize, be: bool, d: &[u8]) -> u64 { hash_bytes((op as u64) << 1 | be as u64, d) }

//! Reference model of the wire format: encoder, decoder and value generator, independent of speedy.
use crate::rng::Rng;
use std::cell::{Cell, RefCell};

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum LK { U7, U8, U16, U32, U64, Var }

/// A place in a value which may point into the input.
#[derive(Clone, Debug)]
pub struct Ref { pub addr: usize, pub len: usize, pub esize: usize, pub align: usize, pub must: bool, pub borrowed: bool }

pub struct Enc {
    pub out: Vec<u8>,
    pub be: bool,
    pub canon: bool,
    pub expect: bool,
    pub bad: Option<&'static str>,
    pub invalid: Option<&'static str>,
    pub refs: Vec<Ref>,
    pub owned: Vec<(usize, usize)>,
    /// above zero while inside a borrowed slice, whose elements own nothing
    pub quiet: u32,
    /// where numbers (but not lengths) are in the wire form, and how wide they are
    pub nums: Vec<(usize, usize)>,
}
impl Enc {
    fn mk(be: bool, canon: bool, expect: bool) -> Enc { Enc { out: Vec::new(), be, canon, expect, bad: None, invalid: None, refs: vec![], owned: vec![], quiet: 0, nums: vec![] } }
    pub fn wire(be: bool) -> Enc { Self::mk(be, false, false) }
    pub fn canon() -> Enc { Self::mk(false, true, false) }
    pub fn expect() -> Enc { Self::mk(false, true, true) }
    pub fn num<const N: usize>(&mut self, le: [u8; N]) { if !self.canon { self.nums.push((self.out.len(), N)); } self.put(le) }
    fn put<const N: usize>(&mut self, mut le: [u8; N]) { if self.be && !self.canon { le.reverse(); } self.out.extend_from_slice(&le); }
    pub fn u8(&mut self, v: u8) { self.out.push(v) }
    pub fn raw(&mut self, v: &[u8]) { self.out.extend_from_slice(v) }
    /// Length prefix; part of the wire form only.
    pub fn len(&mut self, k: LK, n: usize) {
        if self.canon { return; }
        let max: u128 = match k { LK::U7 => 127, LK::U8 => 255, LK::U16 => 65535, LK::U32 => u32::MAX as u128, _ => u64::MAX as u128 };
        if n as u128 > max { self.bad = Some("length out of range of its type"); return; }
        match k {
            LK::U7 | LK::U8 => self.u8(n as u8),
            LK::U16 => self.put((n as u16).to_le_bytes()),
            LK::U32 => self.put((n as u32).to_le_bytes()),
            LK::U64 => self.put((n as u64).to_le_bytes()),
            LK::Var => self.out.extend_from_slice(&varint(n as u64)),
        }
    }
    /// Element count; part of the canonical form only.
    pub fn cnt(&mut self, n: usize) { if self.canon { self.out.extend_from_slice(&(n as u64).to_le_bytes()) } }
    pub fn sub(&self) -> Enc { Enc { quiet: self.quiet, ..Self::mk(self.be, self.canon, self.expect) } }
    /// Elements of a slice which was just noted.
    pub fn elems<T: View>(&mut self, s: &[T]) {
        let q = self.refs.last().map_or(false, |r| r.borrowed && r.addr == s.as_ptr() as usize) as u32;
        self.quiet += q;
        for x in s { x.enc(self) }
        self.quiet -= q;
    }
    pub fn join(&mut self, o: Enc) { let at = self.out.len(); self.nums.extend(o.nums.iter().map(|&(i, w)| (i + at, w))); self.out.extend_from_slice(&o.out); self.notes(o); }
    pub fn notes(&mut self, o: Enc) {
        if self.bad.is_none() { self.bad = o.bad; }
        if self.invalid.is_none() { self.invalid = o.invalid; }
        self.refs.extend(o.refs); self.owned.extend(o.owned);
    }
    pub fn own<T>(&mut self, p: &[T]) { let n = std::mem::size_of_val(p); if self.canon && n > 0 && self.quiet == 0 { self.owned.push((p.as_ptr() as usize, n)) } }
    pub fn own1<T: ?Sized>(&mut self, p: &T) { let n = std::mem::size_of_val(p); if self.canon && n > 0 && self.quiet == 0 { self.owned.push((p as *const T as *const u8 as usize, n)) } }
    pub fn refer<T>(&mut self, p: &[T], must: bool, borrowed: bool) {
        if self.canon {
            if p.as_ptr() as usize % std::mem::align_of::<T>() != 0 { self.invalid = Some("misaligned slice reference"); }
            self.refs.push(Ref { addr: p.as_ptr() as usize, len: std::mem::size_of_val(p), esize: std::mem::size_of::<T>(), align: std::mem::align_of::<T>(), must, borrowed });
        }
    }
    /// Sorted and deduplicated entries (sets, maps) in canonical form.
    pub fn sorted(&mut self, mut items: Vec<Vec<u8>>) {
        items.sort();
        self.cnt(items.len());
        for i in items { self.out.extend_from_slice(&i); }
    }
}

/// The documented varint form, written from the documentation table.
pub fn varint(v: u64) -> Vec<u8> {
    for n in 0..8u32 {
        if v < 1u64 << (7 * (n + 1)) {
            let ones = !(0xFFu32 >> n) as u8;
            let top = (v >> (8 * n)) as u8;
            let mut o = vec![ones | top];
            o.extend_from_slice(&v.to_le_bytes()[..n as usize]);
            return o;
        }
    }
    let mut o = vec![0xFF];
    o.extend_from_slice(&v.to_le_bytes());
    o
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DErr { Short, Invalid(&'static str), Huge }
pub type DRes<T = ()> = Result<T, DErr>;

pub struct Dec<'d> {
    pub data: &'d [u8],
    pub pos: usize,
    pub be: bool,
    pub borrow: bool,
    pub base: usize,
    pub steps: u64,
    /// (position, length, element size, alignment, 2: always borrowed, 1: borrowed by borrowing reads, 0: optional)
    pub refs: Vec<(usize, usize, usize, usize, u8)>,
    pub defaulted: bool,
    /// the greatest length claimed
    pub max_len: usize,
    /// some length promised more than what is left could hold, were each element 32 bytes long
    pub over: bool,
    /// some usize or length does not fit into 32 bits
    pub wide: bool,
}
impl<'d> Dec<'d> {
    pub fn promised(&mut self, n: usize) { /* sizes may not fit a 32-bit machine */ self.wide |= n as u64 > 1 << 26; self.max_len = self.max_len.max(n); if n.saturating_mul(32) > self.data.len() - self.pos.min(self.data.len()) { self.over = true } }
    pub fn new(data: &'d [u8], be: bool, borrow: bool) -> Dec<'d> { Dec { data, pos: 0, be, borrow, base: data.as_ptr() as usize, steps: 0, refs: vec![], defaulted: false, max_len: 0, over: false, wide: false } }
    pub fn left(&self) -> usize { self.data.len() - self.pos }
    pub fn take(&mut self, n: usize) -> DRes<&'d [u8]> {
        if self.left() < n { return Err(DErr::Short); }
        let r = &self.data[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    pub fn num<const N: usize>(&mut self) -> DRes<[u8; N]> {
        let mut v: [u8; N] = self.take(N)?.try_into().unwrap();
        if self.be { v.reverse(); }
        Ok(v)
    }
    pub fn u8(&mut self) -> DRes<u8> { Ok(self.take(1)?[0]) }
    pub fn u16(&mut self) -> DRes<u16> { Ok(u16::from_le_bytes(self.num()?)) }
    pub fn u32(&mut self) -> DRes<u32> { Ok(u32::from_le_bytes(self.num()?)) }
    pub fn u64(&mut self) -> DRes<u64> { Ok(u64::from_le_bytes(self.num()?)) }
    pub fn varint(&mut self) -> DRes<u64> {
        let first = self.u8()?;
        let n = first.leading_ones();
        let rest = self.take(n as usize)?;
        let mut v = if n >= 7 { 0 } else { ((first & (0xFFu8 >> (n + 1))) as u64) << (8 * n) };
        for (i, b) in rest.iter().enumerate() { v |= (*b as u64) << (8 * i); }
        Ok(v)
    }
    pub fn len(&mut self, k: LK) -> DRes<usize> {
        let n = match k {
            LK::U7 => { let v = self.u8()?; if v > 127 { return Err(DErr::Invalid("u7 length")); } v as usize }
            LK::U8 => self.u8()? as usize,
            LK::U16 => self.u16()? as usize,
            LK::U32 => self.u32()? as usize,
            LK::U64 => self.u64()? as usize,
            LK::Var => self.varint()? as usize,
        };
        self.promised(n);
        Ok(n)
    }
    pub fn step(&mut self) -> DRes { self.steps += 1; if self.steps > 400_000 { Err(DErr::Huge) } else { Ok(()) } }
    /// A constant prefix.
    pub fn constant(&mut self, c: &[u8]) -> DRes { if self.take(c.len())? == c { Ok(()) } else { Err(DErr::Invalid("constant")) } }
}

/// Static facts about a type, by the documented format.
#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub min: usize,
    /// every encoding has exactly `min` bytes
    pub fixed: bool,
    /// contains something that can only be read by borrowing
    pub borrow: bool,
    /// contains a Cow
    pub cow: bool,
    /// contains an until-end-of-input or default-on-EOF field
    pub open: bool,
    /// contains a length-prefixed sequence whose elements may occupy no bytes
    pub zero_elems: bool,
    /// contains a set or map
    pub hashed: bool,
    pub regex: bool,
    /// decoding can fail for a reason other than running short
    pub fallible: bool,
    /// contains a skipped field
    pub skips: bool,
    /// size in memory
    pub size: usize,
    /// bytes of memory allowed per byte of input, generously
    pub mem: usize,
}
impl Shape {
    pub const fn fixed(min: usize) -> Shape { Shape { min, fixed: true, borrow: false, cow: false, open: false, zero_elems: false, hashed: false, regex: false, fallible: false, skips: false, size: 0, mem: 16 } }
    pub fn min(mut self, m: usize) -> Shape { self.min = m; self }
    pub fn var(mut self) -> Shape { self.fixed = false; self }
    pub fn fails(mut self) -> Shape { self.fallible = true; self }
    pub fn opened(mut self) -> Shape { self.open = true; self.fixed = false; self }
    pub fn and(self, o: Shape) -> Shape {
        Shape { min: self.min.saturating_add(o.min), fixed: self.fixed && o.fixed, ..self.flags(o) }
    }
    pub fn or(self, o: Shape) -> Shape {
        Shape { min: self.min.min(o.min), fixed: self.fixed && o.fixed && self.min == o.min, ..self.flags(o) }
    }
    pub fn flags(self, o: Shape) -> Shape {
        Shape { borrow: self.borrow | o.borrow, cow: self.cow | o.cow, open: self.open | o.open, zero_elems: self.zero_elems | o.zero_elems, hashed: self.hashed | o.hashed, regex: self.regex | o.regex, fallible: self.fallible | o.fallible, skips: self.skips | o.skips, size: self.size + o.size, mem: self.mem.max(o.mem), ..self }
    }
    /// A skipped field of this type.
    pub fn skipped<T>(mut self) -> Shape { self.skips = true; self.size += std::mem::size_of::<T>(); self }
    /// Shape of a container of elements of this shape, prefix of `p` bytes.
    pub fn seq(self, p: usize) -> Shape {
        let mut s = Shape::fixed(p).var().flags(self);
        if self.min == 0 { s.zero_elems = true; }
        s.mem = s.mem.saturating_add((self.size * 8 + 128) / self.min.max(1));
        s
    }
}
thread_local!(static SHAPE_DEPTH: Cell<u32> = Cell::new(0));
/// Shape of a component, cut off for recursive types.
pub fn shape_of<'a, T: Model<'a>>() -> Shape {
    let d = SHAPE_DEPTH.with(|c| { let d = c.get(); c.set(d + 1); d });
    let mut s = if d > 24 { Shape::fixed(1).var() } else { T::shape() };
    s.size = std::mem::size_of::<T>();
    SHAPE_DEPTH.with(|c| c.set(d));
    s
}

pub trait View { fn enc(&self, e: &mut Enc); }
pub trait Model<'a>: View + Sized {
    fn gen(g: &mut Gen<'a>) -> Self;
    /// Decodes one encoding, appending the canonical form of the value denoted.
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes;
    fn shape() -> Shape;
}
/// Things with a length which field attributes can move elsewhere.
pub trait Body: View {
    fn clen(&self) -> usize;
    fn body(&self, e: &mut Enc);
}
pub trait Cont<'a>: Model<'a> + Body {
    fn dec_body(d: &mut Dec, e: &mut Enc, n: usize) -> DRes;
    fn dec_eof(d: &mut Dec, e: &mut Enc) -> DRes;
    fn gen_n(g: &mut Gen<'a>, n: usize) -> Self;
    /// Shape of the body alone.
    fn body_shape() -> Shape;
}

pub fn enc_with<T: Body>(v: &T, e: &mut Enc, k: LK) { e.len(k, v.clen()); v.body(e) }
pub fn dec_with<'a, T: Cont<'a>>(d: &mut Dec, e: &mut Enc, k: LK) -> DRes { let n = d.len(k)?; T::dec_body(d, e, n) }
pub fn enc_opt_with<T: Body>(v: &Option<T>, e: &mut Enc, k: LK) {
    match v { Some(v) => { e.u8(1); enc_with(v, e, k) } None => e.u8(0) }
}
pub fn dec_opt_with<'a, T: Cont<'a>>(d: &mut Dec, e: &mut Enc, k: LK) -> DRes {
    if d.u8()? != 0 { e.u8(1); dec_with::<T>(d, e, k) } else { e.u8(0); Ok(()) }
}
pub fn gen_with<'a, T: Cont<'a>>(g: &mut Gen<'a>, max: usize) -> T {
    let es = T::body_shape().min.max(1);
    let n = g.len(es).min(max);
    T::gen_n(g, n)
}
/// The length to say elsewhere for a field of `n`; now and then another one, by a little or by what a narrower comparison loses.
pub fn said(g: &mut Gen, n: usize, cap: usize) -> usize {
    if g.plain || !g.rng.one_in(20) { return n.min(cap) }
    let off = *g.rng.pick(&[1usize, 1, 1, 16, 128, 256, 512, 65_536, 65_536, 131_072, 1 << 24]);
    if n + off <= cap { n + off } else { (n + 1).min(cap) }
}
/// A value for a `length_type` field; now and then one that does not fit.
pub fn gen_lt<'a, T: Cont<'a>>(g: &mut Gen<'a>, k: LK) -> T {
    let m = match k { LK::U7 => 127, LK::U8 => 255, _ => 70_000 };
    if m < 300 && g.depth < 2 && g.budget > 2000 && g.rng.one_in(12) {
        let n = m + g.rng.us(3);
        g.budget -= n as i64;
        return T::gen_n(g, n);
    }
    if k == LK::U16 && g.huge && g.rng.one_in(40) { g.huge = false; let n = 65535 + g.rng.us(2); return T::gen_n(g, n); }
    gen_with(g, m)
}
/// `default_on_eof`: on running short, the type's default.
pub fn dec_or_default(d: &mut Dec, e: &mut Enc, f: impl FnOnce(&mut Dec, &mut Enc) -> DRes, dflt: impl FnOnce(&mut Enc)) -> DRes {
    let (mark, refs) = (e.out.len(), d.refs.len());
    match f(d, e) {
        Err(DErr::Short) => { e.out.truncate(mark); d.refs.truncate(refs); d.defaulted = true; d.pos = d.data.len(); dflt(e); Ok(()) }
        r => r,
    }
}

// ---- what derived types need
pub fn enc_skip<T: View + Default>(v: &T, e: &mut Enc) { if e.canon { if e.expect { T::default().enc(e) } else { v.enc(e) } } }
pub fn dec_skip<T: View + Default>(_: &mut Dec, e: &mut Enc) -> DRes { T::default().enc(e); Ok(()) }
pub fn enc_varint(v: u64, e: &mut Enc) { if e.canon { e.num(v.to_le_bytes()) } else { e.raw(&varint(v)) } }
pub fn dec_varint(d: &mut Dec, e: &mut Enc) -> DRes { let v = d.varint()?; e.num(v.to_le_bytes()); Ok(()) }
/// A field whose length is written elsewhere.
pub fn enc_len<T: Body>(v: &T, e: &mut Enc, n: usize) { if !e.canon && v.clen() != n && e.bad.is_none() { e.bad = Some("length differs from the one said elsewhere") } v.body(e) }
pub fn dec_len<'a, T: Cont<'a>>(d: &mut Dec, e: &mut Enc, n: usize) -> DRes { d.promised(n); T::dec_body(d, e, n) }
pub fn enc_tag(e: &mut Enc, k: LK, v: u64) {
    if e.canon { return e.num(v.to_le_bytes()); }
    match k { LK::U7 | LK::U8 => e.u8(v as u8), LK::U16 => e.num((v as u16).to_le_bytes()), LK::U32 => e.num((v as u32).to_le_bytes()), LK::U64 => e.num(v.to_le_bytes()), LK::Var => e.raw(&varint(v)) }
}
pub fn dec_tag(d: &mut Dec, k: LK) -> DRes<u64> {
    Ok(match k { LK::U7 | LK::U8 => d.u8()? as u64, LK::U16 => d.u16()? as u64, LK::U32 => d.u32()? as u64, LK::U64 => d.u64()?, LK::Var => d.varint()? })
}
pub fn dec_u8(d: &mut Dec, e: &mut Enc) -> DRes<u8> { let v = d.u8()?; e.u8(v); Ok(v) }
pub fn dec_u16(d: &mut Dec, e: &mut Enc) -> DRes<u16> { let v = d.u16()?; e.raw(&v.to_le_bytes()); Ok(v) }
pub fn dec_u32(d: &mut Dec, e: &mut Enc) -> DRes<u32> { let v = d.u32()?; e.raw(&v.to_le_bytes()); Ok(v) }
pub fn dec_usize(d: &mut Dec, e: &mut Enc) -> DRes<usize> { let v = d.u64()?; d.wide |= v > u32::MAX as u64; e.raw(&v.to_le_bytes()); Ok(v as usize) }

pub struct Arena { v: RefCell<Vec<(*mut (), unsafe fn(*mut ()))>> }
impl Arena {
    pub fn new() -> Arena { Arena { v: RefCell::new(vec![]) } }
    pub fn put<'a, T: 'a>(&'a self, v: T) -> &'a T {
        unsafe fn drop_it<T>(p: *mut ()) { unsafe { drop(Box::from_raw(p as *mut T)) } }
        let p = Box::into_raw(Box::new(v));
        self.v.borrow_mut().push((p as *mut (), drop_it::<T>));
        unsafe { &*p }
    }
}
impl Drop for Arena { fn drop(&mut self) { for (p, f) in self.v.borrow_mut().drain(..).rev() { unsafe { f(p) } } } }

pub struct Gen<'a> { pub rng: Rng, pub arena: &'a Arena, pub budget: i64, pub depth: u32, pub big: bool, pub huge: bool, pub plain: bool }
impl<'a> Gen<'a> {
    pub fn new(rng: Rng, arena: &'a Arena, budget: i64) -> Gen<'a> { Gen { rng, arena, budget, depth: 0, big: budget > 3000, huge: false, plain: false } }
    pub fn len(&mut self, esize: usize) -> usize {
        let cap = (self.budget.max(0) as usize) / esize.max(1);
        if cap == 0 || self.depth > 5 { return 0; }
        let r = &mut self.rng;
        let n = match r.below(13) {
            0 | 1 => 0,
            2 | 3 => 1,
            4 | 5 => 2,
            6 => 3,
            7 => 4 + r.us(5),
            8 => r.us(20),
            9 => *r.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
            10 => *r.pick(&[127, 128, 129, 254, 255, 256, 257, 511, 513]),
            _ => if self.big && self.depth == 0 { r.us(cap + 1) } else { r.us(6) },
        };
        let n = if self.depth >= 2 { n.min(6) } else if self.depth == 1 { n.min(40) } else { n };
        let n = n.min(cap);
        self.budget -= (n * esize) as i64;
        n
    }
    pub fn down<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T { self.depth += 1; let r = f(self); self.depth -= 1; r }
    pub fn string(&mut self, bytes: usize) -> String {
        let mut s = String::with_capacity(bytes);
        let mode = self.rng.below(3);
        while s.len() < bytes {
            let left = bytes - s.len();
            let c = match self.rng.below(if mode == 0 { 4 } else { 8 }) {
                0..=3 => (32 + self.rng.below(95)) as u8 as char,
                4 => char::from_u32(self.rng.below(128) as u32).unwrap(),
                5 => char::from_u32(0x80 + self.rng.below(0x780) as u32).unwrap(),
                6 => char::from_u32(0x800 + self.rng.below(0xD000) as u32).unwrap_or('\u{FFFD}'),
                _ => char::from_u32(0x10000 + self.rng.below(0x100000) as u32).unwrap(),
            };
            s.push(if c.len_utf8() <= left { c } else { 'x' });
        }
        s
    }
}

//! Model of every supported standard and third-party type.
use crate::model::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, Hash};
use std::ops::{Range, RangeInclusive};
use std::time::{Duration, SystemTime};

macro_rules! ints { ($($t:ty),*) => { $(
    impl View for $t { fn enc(&self, e: &mut Enc) { e.num(self.to_le_bytes()) } }
    impl<'a> Model<'a> for $t {
        fn gen(g: &mut Gen<'a>) -> Self { g.rng.int() as $t }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let v = d.num::<{ std::mem::size_of::<$t>() }>()?; e.raw(&v); Ok(()) }
        fn shape() -> Shape { Shape::fixed(std::mem::size_of::<$t>()) }
    }
)* } }
ints!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128);
macro_rules! floats { ($($t:ty, $b:ty);*) => { $(
    impl View for $t { fn enc(&self, e: &mut Enc) { e.num(self.to_bits().to_le_bytes()) } }
    impl<'a> Model<'a> for $t {
        fn gen(g: &mut Gen<'a>) -> Self {
            match g.rng.below(8) { 0 => 0.0, 1 => -0.0, 2 => <$t>::NAN, 3 => <$t>::INFINITY, 4 => <$t>::MIN_POSITIVE / 2.0, 5 => g.rng.below(1000) as $t / 8.0, _ => <$t>::from_bits(g.rng.u64() as $b) }
        }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let v = d.num::<{ std::mem::size_of::<$t>() }>()?; e.raw(&v); Ok(()) }
        fn shape() -> Shape { Shape::fixed(std::mem::size_of::<$t>()) }
    }
)* } }
floats!(f32, u32; f64, u64);

impl View for usize { fn enc(&self, e: &mut Enc) { (*self as u64).enc(e) } }
impl<'a> Model<'a> for usize {
    fn gen(g: &mut Gen<'a>) -> Self { let v = g.rng.int() as u64; let small = g.rng.bool(); (if small { v as u32 as u64 } else { v }) as usize }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { dec_usize(d, e).map(|_| ()) }
    fn shape() -> Shape { Shape::fixed(8) }
}
impl View for bool {
    fn enc(&self, e: &mut Enc) {
        let raw = unsafe { std::ptr::read_volatile(self as *const bool as *const u8) };
        if raw > 1 { e.invalid = Some("bool out of range"); }
        e.u8(raw)
    }
}
impl<'a> Model<'a> for bool {
    fn gen(g: &mut Gen<'a>) -> Self { g.rng.bool() }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let v = d.u8()?; e.u8((v != 0) as u8); Ok(()) }
    fn shape() -> Shape { Shape::fixed(1) }
}
impl View for char {
    fn enc(&self, e: &mut Enc) {
        let raw = unsafe { std::ptr::read_volatile(self as *const char as *const u32) };
        if char::from_u32(raw).is_none() { e.invalid = Some("char out of range"); }
        e.num(raw.to_le_bytes())
    }
}
impl<'a> Model<'a> for char {
    fn gen(g: &mut Gen<'a>) -> Self {
        let edges = ['\0', 'a', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
        if g.rng.bool() { *g.rng.pick(&edges) } else { char::from_u32(g.rng.below(0x110000) as u32).unwrap_or('z') }
    }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes {
        let v = d.u32()?;
        if v > 0x10FFFF || (0xD800..=0xDFFF).contains(&v) { return Err(DErr::Invalid("char")); }
        e.raw(&v.to_le_bytes());
        Ok(())
    }
    fn shape() -> Shape { Shape::fixed(4).fails() }
}

// ---- strings
fn str_body(s: &str, e: &mut Enc) {
    if std::str::from_utf8(s.as_bytes()).is_err() { e.invalid = Some("string is not UTF-8"); }
    e.cnt(s.len());
    e.raw(s.as_bytes());
}
fn str_dec(d: &mut Dec, e: &mut Enc, n: usize) -> DRes {
    let b = d.take(n)?;
    if std::str::from_utf8(b).is_err() { return Err(DErr::Invalid("utf-8")); }
    e.cnt(n);
    e.raw(b);
    Ok(())
}
macro_rules! strings { ($([$($lt:tt)*] $t:ty, |$s:ident, $e:ident| $note:expr, |$g:ident, $x:ident| $mk:expr, $shape:expr, $must:expr, $cow:expr);* $(;)?) => { $(
    impl $($lt)* View for $t { fn enc(&self, e: &mut Enc) { enc_str_like(self, |$s: &$t, $e: &mut Enc| $note, e) } }
    impl<'a> Model<'a> for $t {
        fn gen(g: &mut Gen<'a>) -> Self { let n = g.len(1); Self::gen_n(g, n) }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let n = d.len(LK::U32)?; Self::dec_body(d, e, n) }
        fn shape() -> Shape { Shape::fixed(4).flags(Self::body_shape()).var() }
    }
    impl $($lt)* Body for $t {
        fn clen(&self) -> usize { let s: &str = &**self; s.len() }
        fn body(&self, $e: &mut Enc) { let $s = self; $note; str_body(&**self, $e) }
    }
    impl<'a> Cont<'a> for $t {
        fn dec_body(d: &mut Dec, e: &mut Enc, n: usize) -> DRes {
            if $must && !d.borrow { return Err(DErr::Invalid("needs a borrowing reader")); }
            let at = d.pos;
            str_dec(d, e, n)?;
            if $must || $cow { d.refs.push((at, n, 1, 1, if $must { 2 } else { 1 })); }
            Ok(())
        }
        fn dec_eof(d: &mut Dec, e: &mut Enc) -> DRes { let n = d.left(); Self::dec_body(d, e, n)?; if $cow { d.refs.last_mut().unwrap().4 = 0; } Ok(()) }
        fn gen_n($g: &mut Gen<'a>, n: usize) -> Self { let $x = $g.string(n); $mk }
        fn body_shape() -> Shape { $shape }
    }
)* } }
fn enc_str_like<T: std::ops::Deref<Target = str>>(s: &T, note: impl Fn(&T, &mut Enc), e: &mut Enc) {
    note(s, e);
    e.len(LK::U32, s.len());
    str_body(s, e);
}
fn sb() -> Shape { Shape::fixed(0).var().fails() }
fn with_borrow(mut s: Shape) -> Shape { s.borrow = true; s }
fn with_cow(mut s: Shape) -> Shape { s.cow = true; s }
strings! {
    [] String, |s, e| e.own(s.as_bytes()), |g, x| { let _ = &g; x }, sb(), false, false;
    [] Box<str>, |s, e| e.own(s.as_bytes()), |g, x| { let _ = &g; x.into_boxed_str() }, sb(), false, false;
    [<'a>] &'a str, |s, e| e.refer(s.as_bytes(), true, true), |g, x| &**g.arena.put(x), with_borrow(sb()), true, false;
    [<'a>] Cow<'a, str>, |s, e| { match s { Cow::Borrowed(s) => e.refer(s.as_bytes(), false, true), Cow::Owned(s) => { e.own(s.as_bytes()); e.refer(s.as_bytes(), false, false) } } },
        |g, x| if g.rng.bool() { Cow::Owned(x) } else { Cow::Borrowed(&**g.arena.put(x)) }, with_cow(sb()), false, true;
}

// ---- sequences
pub fn seq_body<T: View>(s: &[T], e: &mut Enc) { e.cnt(s.len()); e.elems(s) }
pub fn seq_dec<'a, T: Model<'a>>(d: &mut Dec, e: &mut Enc, n: usize) -> DRes {
    e.cnt(n);
    for _ in 0..n { d.step()?; T::dec(d, e)?; }
    Ok(())
}
pub fn eof_dec<'a, T: Model<'a>>(d: &mut Dec, e: &mut Enc, mut each: impl FnMut(Vec<u8>)) -> DRes {
    loop {
        d.step()?;
        let mut s = e.sub();
        match T::dec(d, &mut s) {
            Ok(()) => each(std::mem::take(&mut s.out)),
            Err(DErr::Short) => { d.pos = d.data.len(); return Ok(()); }
            Err(x) => return Err(x),
        }
    }
}
fn gen_vec<'a, T: Model<'a>>(g: &mut Gen<'a>, n: usize) -> Vec<T> { g.down(|g| (0..n).map(|_| T::gen(g)).collect()) }
fn es<'a, T: Model<'a>>() -> usize { shape_of::<T>().min.max(1) }
fn vec_eof<'a, T: Model<'a>>(d: &mut Dec, e: &mut Enc) -> DRes {
    let mut v = vec![];
    eof_dec::<T>(d, e, |x| v.push(x))?;
    e.cnt(v.len());
    for x in v { e.raw(&x) }
    Ok(())
}
macro_rules! seqs { ($([$($b:tt)*] $t:ty, |$s:ident, $e:ident| $note:expr, |$g:ident, $x:ident| $mk:expr);* $(;)?) => { $(
    impl<'a, T: View $($b)*> View for $t { fn enc(&self, e: &mut Enc) { e.len(LK::U32, self.len()); { let $s = self; let $e = &mut *e; $note } seq_body(self, e) } }
    impl<'a, T: Model<'a> $($b)*> Model<'a> for $t {
        fn gen(g: &mut Gen<'a>) -> Self { let n = g.len(es::<T>()); Self::gen_n(g, n) }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let n = d.len(LK::U32)?; Self::dec_body(d, e, n) }
        fn shape() -> Shape { let mut s = shape_of::<T>().seq(4); s.cow |= stringify!($t).starts_with("Cow"); s }
    }
    impl<'a, T: View $($b)*> Body for $t {
        fn clen(&self) -> usize { self.len() }
        fn body(&self, e: &mut Enc) { { let $s = self; let $e = &mut *e; $note } seq_body(self, e) }
    }
    impl<'a, T: Model<'a> $($b)*> Cont<'a> for $t {
        fn dec_body(d: &mut Dec, e: &mut Enc, n: usize) -> DRes {
            let (at, sh) = (d.pos, shape_of::<T>());
            seq_dec::<T>(d, e, n)?;
            if stringify!($t).starts_with("Cow") && sh.fixed && sh.min > 0 { d.refs.push((at, n * sh.min, sh.min, std::mem::align_of::<T>(), matches!(std::any::type_name::<T>(), "u8" | "i8") as u8)); }
            Ok(())
        }
        fn dec_eof(d: &mut Dec, e: &mut Enc) -> DRes { vec_eof::<T>(d, e) }
        fn gen_n($g: &mut Gen<'a>, n: usize) -> Self { let $x: Vec<T> = gen_vec($g, n); $mk }
        fn body_shape() -> Shape { let mut s = shape_of::<T>().seq(0); s.cow |= stringify!($t).starts_with("Cow"); s }
    }
)* } }
seqs! {
    [] Vec<T>, |s, e| e.own(s), |g, x| { let _ = &g; x };
    [] Box<[T]>, |s, e| e.own(s), |g, x| { let _ = &g; x.into_boxed_slice() };
    [+ Clone + 'a] Cow<'a, [T]>, |s, e| match s { Cow::Borrowed(s) => e.refer(s, false, true), Cow::Owned(s) => { e.own(s); e.refer(s, false, false) } },
        |g, x| if g.rng.bool() { Cow::Owned(x) } else { Cow::Borrowed(&**g.arena.put(x)) };
}
impl<'a, T: Model<'a> + Copy + 'a> Model<'a> for &'a [T] {
    fn gen(g: &mut Gen<'a>) -> Self { let n = g.len(es::<T>()); Self::gen_n(g, n) }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes {
        if d.be != cfg!(target_endian = "big") && shape_of::<T>().min != 1 { d.u32()?; return Err(DErr::Invalid("endianness mismatch")); }
        let n = d.len(LK::U32)?;
        Self::dec_body(d, e, n)
    }
    fn shape() -> Shape { with_borrow(shape_of::<T>().seq(4).fails()) }
}
impl<'a, T: View> View for &'a [T] { fn enc(&self, e: &mut Enc) { e.len(LK::U32, self.len()); e.refer(self, true, true); seq_body(self, e) } }
impl<'a, T: View> Body for &'a [T] {
    fn clen(&self) -> usize { self.len() }
    fn body(&self, e: &mut Enc) { e.refer(self, true, true); seq_body(self, e) }
}
impl<'a, T: Model<'a> + Copy + 'a> Cont<'a> for &'a [T] {
    fn dec_body(d: &mut Dec, e: &mut Enc, n: usize) -> DRes {
        let sz = shape_of::<T>().min;
        if d.be != cfg!(target_endian = "big") && sz != 1 { return Err(DErr::Invalid("endianness mismatch")); }
        if !d.borrow { return Err(DErr::Invalid("needs a borrowing reader")); }
        let at = d.pos;
        if n.checked_mul(sz).map_or(true, |b| b > d.left()) { return Err(DErr::Short); }
        let al = std::mem::align_of::<T>();
        if n > 0 && (d.base + at) % al != 0 { return Err(DErr::Invalid("misaligned")); }
        seq_dec::<T>(d, e, n)?;
        d.refs.push((at, n * sz, sz, al, 2));
        Ok(())
    }
    fn dec_eof(d: &mut Dec, e: &mut Enc) -> DRes { let n = d.left() / shape_of::<T>().min; Self::dec_body(d, e, n)?; d.pos = d.data.len(); Ok(()) }
    fn gen_n(g: &mut Gen<'a>, n: usize) -> Self { let v: Vec<T> = gen_vec(g, n); &**g.arena.put(v) }
    fn body_shape() -> Shape { with_borrow(shape_of::<T>().seq(0).fails()) }
}
impl<'a, T: View, const N: usize> View for &'a [T; N] { fn enc(&self, e: &mut Enc) { e.refer(&self[..], true, true); e.elems(&self[..]) } }
impl<'a, T: Model<'a> + Copy + 'a, const N: usize> Model<'a> for &'a [T; N] {
    fn gen(g: &mut Gen<'a>) -> Self { let v: [T; N] = <[T; N]>::gen(g); g.arena.put(v) }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes {
        let sz = shape_of::<T>().min;
        if d.be != cfg!(target_endian = "big") && sz != 1 { return Err(DErr::Invalid("endianness mismatch")); }
        if !d.borrow { return Err(DErr::Invalid("needs a borrowing reader")); }
        if d.left() < sz * N { return Err(DErr::Short); }
        let (at, al) = (d.pos, std::mem::align_of::<T>());
        if N > 0 && (d.base + at) % al != 0 { return Err(DErr::Invalid("misaligned")); }
        for _ in 0..N { T::dec(d, e)?; }
        d.refs.push((at, N * sz, sz, al, 2));
        Ok(())
    }
    fn shape() -> Shape { with_borrow(Shape::fixed(shape_of::<T>().min * N).fails()) }
}
impl<T: View, const N: usize> View for [T; N] { fn enc(&self, e: &mut Enc) { e.own1(self); for x in self { x.enc(e) } } }
impl<'a, T: Model<'a>, const N: usize> Model<'a> for [T; N] {
    fn gen(g: &mut Gen<'a>) -> Self { g.down(|g| std::array::from_fn(|_| T::gen(g))) }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { for _ in 0..N { d.step()?; T::dec(d, e)?; } Ok(()) }
    fn shape() -> Shape { let s = shape_of::<T>(); if N == 0 { Shape::fixed(0) } else { Shape { min: s.min.saturating_mul(N), ..s } } }
}

// ---- sets and maps
fn enc_set<'x, T: View + 'x>(it: impl Iterator<Item = &'x T>, e: &mut Enc) {
    if e.canon {
        let mut v = vec![];
        for x in it { let mut s = e.sub(); x.enc(&mut s); v.push(std::mem::take(&mut s.out)); e.notes(s); }
        e.sorted(v);
    } else { for x in it { x.enc(e) } }
}
fn enc_map<'x, K: View + 'x, V: View + 'x>(it: impl Iterator<Item = (&'x K, &'x V)>, e: &mut Enc) {
    if e.canon {
        let mut v = vec![];
        for (k, x) in it { let mut s = e.sub(); k.enc(&mut s); x.enc(&mut s); v.push(std::mem::take(&mut s.out)); e.notes(s); }
        e.sorted(v);
    } else { for (k, x) in it { k.enc(e); x.enc(e) } }
}
/// Elements one by one; `n` of them or until the input ends.
fn items(d: &mut Dec, n: Option<usize>, mut one: impl FnMut(&mut Dec) -> DRes) -> DRes {
    let mut i = 0;
    while n.map_or(true, |n| i < n) {
        d.step()?;
        match one(d) {
            Ok(()) => {}
            Err(DErr::Short) if n.is_none() => { d.pos = d.data.len(); break; }
            Err(x) => return Err(x),
        }
        i += 1;
    }
    Ok(())
}
fn dec_set<'a, T: Model<'a>>(d: &mut Dec, e: &mut Enc, n: Option<usize>) -> DRes {
    let mut v = BTreeSet::new();
    items(d, n, |d| { let mut s = Enc::canon(); T::dec(d, &mut s)?; v.insert(s.out); Ok(()) })?;
    e.sorted(v.into_iter().collect());
    Ok(())
}
fn dec_map<'a, K: Model<'a>, V: Model<'a>>(d: &mut Dec, e: &mut Enc, n: Option<usize>) -> DRes {
    let mut v = BTreeMap::new();
    items(d, n, |d| { let mut s = Enc::canon(); K::dec(d, &mut s)?; let mut t = Enc::canon(); V::dec(d, &mut t)?; v.insert(s.out, t.out); Ok(()) })?;
    e.sorted(v.into_iter().map(|(mut k, x)| { k.extend(x); k }).collect());
    Ok(())
}
fn hashed(mut s: Shape) -> Shape { s.hashed = true; s }
macro_rules! colls { ($([$($lt:tt)*] [$($lv:tt)*] $t:ty, <$($p:ident),+>, |$g:ident, $n:ident| $gen:expr, $encf:ident, $decf:ident);* $(;)?) => { $(
    impl<$($lv)*> View for $t { fn enc(&self, e: &mut Enc) { e.len(LK::U32, self.len()); e.own1(self); $encf(self.iter(), e) } }
    impl<'a, $($lt)*> Model<'a> for $t {
        fn gen(g: &mut Gen<'a>) -> Self { let n = g.len(0 $(+ es::<$p>())+); Self::gen_n(g, n) }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let n = d.len(LK::U32)?; Self::dec_body(d, e, n) }
        fn shape() -> Shape { hashed(Shape::fixed(0)$(.and(shape_of::<$p>()))+.seq(4)) }
    }
    impl<$($lv)*> Body for $t {
        fn clen(&self) -> usize { self.len() }
        fn body(&self, e: &mut Enc) { e.own1(self); $encf(self.iter(), e) }
    }
    impl<'a, $($lt)*> Cont<'a> for $t {
        fn dec_body(d: &mut Dec, e: &mut Enc, n: usize) -> DRes { $decf::<$($p),+>(d, e, Some(n)) }
        fn dec_eof(d: &mut Dec, e: &mut Enc) -> DRes { $decf::<$($p),+>(d, e, None) }
        fn gen_n($g: &mut Gen<'a>, $n: usize) -> Self { $gen }
        fn body_shape() -> Shape { hashed(Shape::fixed(0)$(.and(shape_of::<$p>()))+.seq(0)) }
    }
)* } }
fn gset<'a, T: Model<'a>, U: FromIterator<T>>(g: &mut Gen<'a>, n: usize) -> U { g.down(|g| (0..n).map(|_| T::gen(g)).collect()) }
fn gmap<'a, K: Model<'a>, V: Model<'a>, U: FromIterator<(K, V)>>(g: &mut Gen<'a>, n: usize) -> U { g.down(|g| (0..n).map(|_| { let k = K::gen(g); (k, V::gen(g)) }).collect()) }
colls! {
    [T: Model<'a> + Ord] [T: View] BTreeSet<T>, <T>, |g, n| gset(g, n), enc_set, dec_set;
    [K: Model<'a> + Ord, V: Model<'a>] [K: View, V: View] BTreeMap<K, V>, <K, V>, |g, n| gmap(g, n), enc_map, dec_map;
    [T: Model<'a> + Eq + Hash, S: BuildHasher + Default] [T: View, S] HashSet<T, S>, <T>, |g, n| gset(g, n), enc_set, dec_set;
    [K: Model<'a> + Eq + Hash, V: Model<'a>, S: BuildHasher + Default] [K: View, V: View, S] HashMap<K, V, S>, <K, V>, |g, n| gmap(g, n), enc_map, dec_map;
}
macro_rules! cow_coll { ([$($lt:tt)*] [$($lv:tt)*] $t:ty) => {
    impl<'a, $($lv)*> View for Cow<'a, $t> { fn enc(&self, e: &mut Enc) { (**self).enc(e) } }
    impl<'a, $($lt)*> Model<'a> for Cow<'a, $t> {
        fn gen(g: &mut Gen<'a>) -> Self { let v = <$t as Model<'a>>::gen(g); if g.rng.bool() { Cow::Owned(v) } else { Cow::Borrowed(g.arena.put(v)) } }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes { <$t as Model<'a>>::dec(d, e) }
        fn shape() -> Shape { <$t as Model<'a>>::shape() }
    }
    impl<'a, $($lv)*> Body for Cow<'a, $t> {
        fn clen(&self) -> usize { self.len() }
        fn body(&self, e: &mut Enc) { (**self).body(e) }
    }
    impl<'a, $($lt)*> Cont<'a> for Cow<'a, $t> {
        fn dec_body(d: &mut Dec, e: &mut Enc, n: usize) -> DRes { <$t as Cont<'a>>::dec_body(d, e, n) }
        fn dec_eof(d: &mut Dec, e: &mut Enc) -> DRes { <$t as Cont<'a>>::dec_eof(d, e) }
        fn gen_n(g: &mut Gen<'a>, n: usize) -> Self { let v = <$t as Cont<'a>>::gen_n(g, n); if g.rng.bool() { Cow::Owned(v) } else { Cow::Borrowed(g.arena.put(v)) } }
        fn body_shape() -> Shape { <$t as Cont<'a>>::body_shape() }
    }
} }
cow_coll!([T: Model<'a> + Ord + Clone + 'a] [T: View + Clone] BTreeSet<T>);
cow_coll!([K: Model<'a> + Ord + Clone + 'a, V: Model<'a> + Clone + 'a] [K: View + Clone, V: View + Clone] BTreeMap<K, V>);
cow_coll!([T: Model<'a> + Eq + Hash + Clone + 'a] [T: View + Clone] HashSet<T>);
cow_coll!([K: Model<'a> + Eq + Hash + Clone + 'a, V: Model<'a> + Clone + 'a] [K: View + Clone, V: View + Clone] HashMap<K, V>);

macro_rules! index { ($c:ident) => {
    // insertion order is part of the value
    impl<T: View, S> View for $c::IndexSet<T, S> { fn enc(&self, e: &mut Enc) { e.len(LK::U32, self.len()); e.cnt(self.len()); for x in self.iter() { x.enc(e) } } }
    impl<K: View, V: View, S> View for $c::IndexMap<K, V, S> { fn enc(&self, e: &mut Enc) { e.len(LK::U32, self.len()); e.cnt(self.len()); for (k, x) in self.iter() { k.enc(e); x.enc(e) } } }
    impl<'a, T: Model<'a> + Eq + Hash, S: BuildHasher + Default> Model<'a> for $c::IndexSet<T, S> {
        fn gen(g: &mut Gen<'a>) -> Self { let n = g.len(es::<T>()); gset(g, n) }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes {
            let n = d.len(LK::U32)?;
            let mut v: Vec<Vec<u8>> = vec![];
            let mut seen = HashSet::new();
            items(d, Some(n), |d| { let mut s = Enc::canon(); T::dec(d, &mut s)?; if seen.insert(s.out.clone()) { v.push(s.out); } Ok(()) })?;
            e.cnt(v.len());
            for x in v { e.raw(&x) }
            Ok(())
        }
        fn shape() -> Shape { hashed(shape_of::<T>().seq(4)) }
    }
    impl<'a, K: Model<'a> + Eq + Hash, V: Model<'a>, S: BuildHasher + Default> Model<'a> for $c::IndexMap<K, V, S> {
        fn gen(g: &mut Gen<'a>) -> Self { let n = g.len(es::<K>() + es::<V>()); gmap(g, n) }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes {
            let n = d.len(LK::U32)?;
            let mut v: Vec<(Vec<u8>, Vec<u8>)> = vec![];
            let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
            items(d, Some(n), |d| {
                let mut s = Enc::canon(); K::dec(d, &mut s)?;
                let mut t = Enc::canon(); V::dec(d, &mut t)?;
                match seen.get(&s.out) { Some(&i) => v[i].1 = t.out, None => { seen.insert(s.out.clone(), v.len()); v.push((s.out, t.out)) } }
                Ok(())
            })?;
            e.cnt(v.len());
            for (k, x) in v { e.raw(&k); e.raw(&x) }
            Ok(())
        }
        fn shape() -> Shape { hashed(shape_of::<K>().and(shape_of::<V>()).seq(4)) }
    }
} }
index!(indexmap_v1);
index!(indexmap_v2);

impl<A: smallvec::Array> View for smallvec::SmallVec<A> where A::Item: View { fn enc(&self, e: &mut Enc) { e.len(LK::U32, self.len()); e.own1(self); e.own(&self[..]); seq_body(self, e) } }
impl<'a, A: smallvec::Array> Model<'a> for smallvec::SmallVec<A> where A::Item: Model<'a> {
    fn gen(g: &mut Gen<'a>) -> Self { let n = g.len(es::<A::Item>()); gen_vec::<A::Item>(g, n).into_iter().collect() }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let n = d.len(LK::U32)?; seq_dec::<A::Item>(d, e, n) }
    fn shape() -> Shape { shape_of::<A::Item>().seq(4) }
}

// ---- wrappers
impl<T: View> View for Option<T> { fn enc(&self, e: &mut Enc) { match self { Some(x) => { e.u8(1); x.enc(e) } None => e.u8(0) } } }
impl<'a, T: Model<'a>> Model<'a> for Option<T> {
    fn gen(g: &mut Gen<'a>) -> Self { if g.rng.one_in(3) || g.depth > 6 { None } else { Some(g.down(T::gen)) } }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { if d.u8()? != 0 { e.u8(1); T::dec(d, e) } else { e.u8(0); Ok(()) } }
    fn shape() -> Shape { let s = shape_of::<T>(); Shape::fixed(1).flags(s).var() }
}
impl<T: View, U: View> View for Result<T, U> { fn enc(&self, e: &mut Enc) { match self { Ok(x) => { e.u8(1); x.enc(e) } Err(x) => { e.u8(0); x.enc(e) } } } }
impl<'a, T: Model<'a>, U: Model<'a>> Model<'a> for Result<T, U> {
    fn gen(g: &mut Gen<'a>) -> Self { if g.rng.bool() { Ok(g.down(T::gen)) } else { Err(g.down(U::gen)) } }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { if d.u8()? != 0 { e.u8(1); T::dec(d, e) } else { e.u8(0); U::dec(d, e) } }
    fn shape() -> Shape { Shape::fixed(1).and(shape_of::<T>().or(shape_of::<U>())) }
}
impl View for () { fn enc(&self, _: &mut Enc) {} }
impl<'a> Model<'a> for () {
    fn gen(_: &mut Gen<'a>) -> Self {}
    fn dec(_: &mut Dec, _: &mut Enc) -> DRes { Ok(()) }
    fn shape() -> Shape { Shape::fixed(0) }
}
macro_rules! tuples { ($(($($n:ident $i:tt),+))*) => { $(
    impl<$($n: View),+> View for ($($n,)+) { fn enc(&self, e: &mut Enc) { $(self.$i.enc(e);)+ } }
    impl<'a, $($n: Model<'a>),+> Model<'a> for ($($n,)+) {
        fn gen(g: &mut Gen<'a>) -> Self { g.down(|g| ($($n::gen(g),)+)) }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes { $($n::dec(d, e)?;)+ Ok(()) }
        fn shape() -> Shape { Shape::fixed(0)$(.and(shape_of::<$n>()))+ }
    }
)* } }
tuples! {
    (A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4) (A 0, B 1, C 2, D 3, E 4, F 5)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10)
}
impl<T: View> View for Range<T> { fn enc(&self, e: &mut Enc) { self.start.enc(e); self.end.enc(e) } }
impl<'a, T: Model<'a>> Model<'a> for Range<T> {
    fn gen(g: &mut Gen<'a>) -> Self { let s = T::gen(g); s..T::gen(g) }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { T::dec(d, e)?; T::dec(d, e) }
    fn shape() -> Shape { shape_of::<T>().and(shape_of::<T>()) }
}
impl<T: View> View for RangeInclusive<T> { fn enc(&self, e: &mut Enc) { self.start().enc(e); self.end().enc(e) } }
impl<'a, T: Model<'a>> Model<'a> for RangeInclusive<T> {
    fn gen(g: &mut Gen<'a>) -> Self { let s = T::gen(g); s..=T::gen(g) }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { T::dec(d, e)?; T::dec(d, e) }
    fn shape() -> Shape { shape_of::<T>().and(shape_of::<T>()) }
}
impl<T: View> View for Box<T> { fn enc(&self, e: &mut Enc) { e.own1(&**self); (**self).enc(e) } }
impl<'a, T: Model<'a>> Model<'a> for Box<T> {
    fn gen(g: &mut Gen<'a>) -> Self { Box::new(g.down(T::gen)) }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { T::dec(d, e) }
    fn shape() -> Shape { shape_of::<T>() }
}

// ---- scalars with their own rules
impl View for speedy::Endianness { fn enc(&self, e: &mut Enc) { e.u8(match self { speedy::Endianness::LittleEndian => 0, speedy::Endianness::BigEndian => 1 }) } }
impl<'a> Model<'a> for speedy::Endianness {
    fn gen(g: &mut Gen<'a>) -> Self { if g.rng.bool() { speedy::Endianness::LittleEndian } else { speedy::Endianness::BigEndian } }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let v = d.u8()?; if v > 1 { return Err(DErr::Invalid("endianness tag")); } e.u8(v); Ok(()) }
    fn shape() -> Shape { Shape::fixed(1).fails() }
}
macro_rules! nonzero { ($($t:ident, $b:ty);*) => { $(
    impl View for std::num::$t {
        fn enc(&self, e: &mut Enc) {
            let raw = unsafe { std::ptr::read_volatile(self as *const Self as *const $b) };
            if raw == 0 { e.invalid = Some("zero NonZero"); }
            raw.enc(e)
        }
    }
    impl<'a> Model<'a> for std::num::$t {
        fn gen(g: &mut Gen<'a>) -> Self { std::num::$t::new(g.rng.int() as $b).unwrap_or(std::num::$t::new(1).unwrap()) }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let v = d.num::<{ std::mem::size_of::<$b>() }>()?; if v.iter().all(|x| *x == 0) { return Err(DErr::Invalid("zero")); } e.raw(&v); Ok(()) }
        fn shape() -> Shape { Shape::fixed(std::mem::size_of::<$b>()).fails() }
    }
)* } }
nonzero!(NonZeroU8, u8; NonZeroU16, u16; NonZeroU32, u32; NonZeroU64, u64; NonZeroI8, i8; NonZeroI16, i16; NonZeroI32, i32; NonZeroI64, i64);
macro_rules! atomics { ($($t:ident, $b:ty);*) => { $(
    impl View for std::sync::atomic::$t { fn enc(&self, e: &mut Enc) { self.load(std::sync::atomic::Ordering::SeqCst).enc(e) } }
    impl<'a> Model<'a> for std::sync::atomic::$t {
        fn gen(g: &mut Gen<'a>) -> Self { Self::new(g.rng.int() as $b) }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes { <$b>::dec(d, e) }
        fn shape() -> Shape { Shape::fixed(std::mem::size_of::<$b>()) }
    }
)* } }
atomics!(AtomicU8, u8; AtomicU16, u16; AtomicU32, u32; AtomicU64, u64; AtomicI8, i8; AtomicI16, i16; AtomicI32, i32; AtomicI64, i64);
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
impl View for Ipv4Addr { fn enc(&self, e: &mut Enc) { let mut o = self.octets(); o.reverse(); e.num(o) } }
impl<'a> Model<'a> for Ipv4Addr {
    fn gen(g: &mut Gen<'a>) -> Self { Ipv4Addr::from(g.rng.int() as u32) }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { u32::dec(d, e) }
    fn shape() -> Shape { Shape::fixed(4) }
}
impl View for Ipv6Addr { fn enc(&self, e: &mut Enc) { let mut o = self.octets(); o.reverse(); e.num(o) } }
impl<'a> Model<'a> for Ipv6Addr {
    fn gen(g: &mut Gen<'a>) -> Self { Ipv6Addr::from(g.rng.int()) }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { u128::dec(d, e) }
    fn shape() -> Shape { Shape::fixed(16) }
}
impl View for IpAddr { fn enc(&self, e: &mut Enc) { match self { IpAddr::V4(a) => { e.u8(0); a.enc(e) } IpAddr::V6(a) => { e.u8(1); a.enc(e) } } } }
impl<'a> Model<'a> for IpAddr {
    fn gen(g: &mut Gen<'a>) -> Self { if g.rng.bool() { IpAddr::V4(Model::gen(g)) } else { IpAddr::V6(Model::gen(g)) } }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let t = d.u8()?; e.u8(t); match t { 0 => u32::dec(d, e), 1 => u128::dec(d, e), _ => Err(DErr::Invalid("address tag")) } }
    fn shape() -> Shape { Shape::fixed(5).var().fails() }
}
fn dec_duration(d: &mut Dec) -> DRes<(u64, u32)> {
    let (s, n) = (d.u64()?, d.u32()?);
    match s.checked_add((n / 1_000_000_000) as u64) { Some(s) => Ok((s, n % 1_000_000_000)), None => Err(DErr::Invalid("duration")) }
}
fn gen_duration(g: &mut Gen) -> Duration {
    let n = match g.rng.below(4) { 0 => 0, 1 => 999_999_999, _ => g.rng.below(1_000_000_000) as u32 };
    Duration::new(g.rng.int() as u64, n)
}
impl View for Duration { fn enc(&self, e: &mut Enc) { self.as_secs().enc(e); self.subsec_nanos().enc(e); if self.subsec_nanos() > 999_999_999 { e.invalid = Some("duration") } } }
impl<'a> Model<'a> for Duration {
    fn gen(g: &mut Gen<'a>) -> Self { gen_duration(g) }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let (s, n) = dec_duration(d)?; e.raw(&s.to_le_bytes()); e.raw(&n.to_le_bytes()); Ok(()) }
    fn shape() -> Shape { Shape::fixed(12).fails() }
}
impl View for SystemTime {
    fn enc(&self, e: &mut Enc) {
        match self.duration_since(SystemTime::UNIX_EPOCH) {
            Ok(d) => d.enc(e),
            Err(x) => { e.bad = Some("time before the epoch"); e.u8(0xEE); x.duration().enc(e) }
        }
    }
}
impl<'a> Model<'a> for SystemTime {
    fn gen(g: &mut Gen<'a>) -> Self {
        loop {
            let d = gen_duration(g);
            let t = if g.rng.one_in(12) && !g.plain { SystemTime::UNIX_EPOCH.checked_sub(d) } else { SystemTime::UNIX_EPOCH.checked_add(d) };
            if let Some(t) = t { return t; }
        }
    }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes {
        let (s, n) = dec_duration(d)?;
        // representable here: seconds fit an i64
        if SystemTime::UNIX_EPOCH.checked_add(Duration::new(s, n)).is_none() { return Err(DErr::Invalid("system time")); }
        e.raw(&s.to_le_bytes()); e.raw(&n.to_le_bytes());
        Ok(())
    }
    fn shape() -> Shape { Shape::fixed(12).fails() }
}
type Dt = chrono::DateTime<chrono::Utc>;
impl View for Dt { fn enc(&self, e: &mut Enc) { self.timestamp().enc(e); self.timestamp_subsec_nanos().enc(e) } }
impl<'a> Model<'a> for Dt {
    fn gen(g: &mut Gen<'a>) -> Self {
        loop {
            let s = match g.rng.below(4) { 0 => g.rng.int() as i64, 1 => -(g.rng.below(1 << 36) as i64), 2 => g.rng.below(1 << 30) as i64 * 60 + 59, _ => g.rng.below(1 << 36) as i64 };
            let n = match g.rng.below(4) { 0 => 999_999_999, 1 if s.rem_euclid(60) == 59 => 1_000_000_000 + g.rng.below(1_000_000_000) as u32, _ => g.rng.below(1_000_000_000) as u32 };
            if let Some(t) = Dt::from_timestamp(s, n) { return t; }
        }
    }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes {
        let (s, n) = (d.u64()? as i64, d.u32()?);
        if Dt::from_timestamp(s, n).is_none() { return Err(DErr::Invalid("timestamp")); }
        e.raw(&s.to_le_bytes()); e.raw(&n.to_le_bytes());
        Ok(())
    }
    fn shape() -> Shape { Shape::fixed(12).fails() }
}
impl View for uuid::Uuid { fn enc(&self, e: &mut Enc) { e.raw(self.as_bytes()) } }
impl<'a> Model<'a> for uuid::Uuid {
    fn gen(g: &mut Gen<'a>) -> Self { uuid::Uuid::from_bytes(g.rng.int().to_le_bytes()) }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { e.raw(d.take(16)?); Ok(()) }
    fn shape() -> Shape { Shape::fixed(16) }
}
impl View for regex::Regex { fn enc(&self, e: &mut Enc) { e.len(LK::U32, self.as_str().len()); e.cnt(self.as_str().len()); e.raw(self.as_str().as_bytes()) } }
impl<'a> Model<'a> for regex::Regex {
    fn gen(g: &mut Gen<'a>) -> Self {
        let mut s = String::new();
        for _ in 0..g.rng.us(6) { s.push_str(*g.rng.pick(&["a", "b*", "(c|d)", "[x-z]+", "\\d", "é", "^", "$", "(?i)q", ".{2,3}"])); }
        regex::Regex::new(&s).unwrap()
    }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes {
        let n = d.len(LK::U32)?;
        let at = d.pos;
        str_dec(d, e, n)?;
        let s = std::str::from_utf8(&d.data[at..at + n]).unwrap();
        if regex::Regex::new(s).is_err() { return Err(DErr::Invalid("regex")); }
        Ok(())
    }
    fn shape() -> Shape { let mut s = Shape::fixed(4).var().fails(); s.regex = true; s }
}
use speedy::private::VarInt64;
impl View for VarInt64 { fn enc(&self, e: &mut Enc) { let v: u64 = (*self).into(); if e.canon { v.enc(e) } else { e.raw(&varint(v)) } } }
impl<'a> Model<'a> for VarInt64 {
    fn gen(g: &mut Gen<'a>) -> Self { VarInt64::from(g.rng.int() as u64) }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let v = d.varint()?; e.raw(&v.to_le_bytes()); Ok(()) }
    fn shape() -> Shape { Shape::fixed(1).var() }
}

macro_rules! glams { ($($t:ident, $n:expr, $c:ty, |$s:ident| $to:expr, |$a:ident| $from:expr);* $(;)?) => { $(
    impl View for glam::$t { fn enc(&self, e: &mut Enc) { let $s = self; let v: [$c; $n] = $to; for x in v { x.enc(e) } } }
    impl<'a> Model<'a> for glam::$t {
        fn gen(g: &mut Gen<'a>) -> Self { let $a: [$c; $n] = std::array::from_fn(|_| Model::gen(g)); $from }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes { for _ in 0..$n { <$c as Model>::dec(d, e)?; } Ok(()) }
        fn shape() -> Shape { Shape::fixed($n * std::mem::size_of::<$c>()) }
    }
)* } }
use glam::*;
glams! {
    Vec2, 2, f32, |s| [s.x, s.y], |a| Vec2::from_array(a); Vec3, 3, f32, |s| [s.x, s.y, s.z], |a| Vec3::from_array(a);
    Vec3A, 3, f32, |s| [s.x, s.y, s.z], |a| Vec3A::from_array(a); Vec4, 4, f32, |s| [s.x, s.y, s.z, s.w], |a| Vec4::from_array(a);
    DVec2, 2, f64, |s| [s.x, s.y], |a| DVec2::from_array(a); DVec3, 3, f64, |s| [s.x, s.y, s.z], |a| DVec3::from_array(a); DVec4, 4, f64, |s| [s.x, s.y, s.z, s.w], |a| DVec4::from_array(a);
    IVec2, 2, i32, |s| [s.x, s.y], |a| IVec2::from_array(a); IVec3, 3, i32, |s| [s.x, s.y, s.z], |a| IVec3::from_array(a); IVec4, 4, i32, |s| [s.x, s.y, s.z, s.w], |a| IVec4::from_array(a);
    UVec2, 2, u32, |s| [s.x, s.y], |a| UVec2::from_array(a); UVec3, 3, u32, |s| [s.x, s.y, s.z], |a| UVec3::from_array(a); UVec4, 4, u32, |s| [s.x, s.y, s.z, s.w], |a| UVec4::from_array(a);
    Quat, 4, f32, |s| [s.x, s.y, s.z, s.w], |a| Quat::from_array(a); DQuat, 4, f64, |s| [s.x, s.y, s.z, s.w], |a| DQuat::from_array(a);
    Mat2, 4, f32, |s| { let m = s.to_cols_array_2d(); [m[0][0], m[0][1], m[1][0], m[1][1]] }, |a| Mat2::from_cols_array(&a);
    Mat3, 9, f32, |s| { let m = s.to_cols_array_2d(); std::array::from_fn(|i| m[i / 3][i % 3]) }, |a| Mat3::from_cols_array(&a);
    Mat3A, 9, f32, |s| { let m = s.to_cols_array_2d(); std::array::from_fn(|i| m[i / 3][i % 3]) }, |a| Mat3A::from_cols_array(&a);
    Mat4, 16, f32, |s| { let m = s.to_cols_array_2d(); std::array::from_fn(|i| m[i / 4][i % 4]) }, |a| Mat4::from_cols_array(&a);
    DMat2, 4, f64, |s| { let m = s.to_cols_array_2d(); std::array::from_fn(|i| m[i / 2][i % 2]) }, |a| DMat2::from_cols_array(&a);
    DMat3, 9, f64, |s| { let m = s.to_cols_array_2d(); std::array::from_fn(|i| m[i / 3][i % 3]) }, |a| DMat3::from_cols_array(&a);
    DMat4, 16, f64, |s| { let m = s.to_cols_array_2d(); std::array::from_fn(|i| m[i / 4][i % 4]) }, |a| DMat4::from_cols_array(&a);
    Affine2, 6, f32, |s| { let m = s.to_cols_array_2d(); std::array::from_fn(|i| m[i / 2][i % 2]) }, |a| Affine2::from_cols_array(&a);
    Affine3A, 12, f32, |s| { let m = s.to_cols_array_2d(); std::array::from_fn(|i| m[i / 3][i % 3]) }, |a| Affine3A::from_cols_array(&a);
    DAffine2, 6, f64, |s| { let m = s.to_cols_array_2d(); std::array::from_fn(|i| m[i / 2][i % 2]) }, |a| DAffine2::from_cols_array(&a);
    DAffine3, 12, f64, |s| { let m = s.to_cols_array_2d(); std::array::from_fn(|i| m[i / 3][i % 3]) }, |a| DAffine3::from_cols_array(&a);
}
macro_rules! bvecs { ($($t:ident, $n:expr, $($c:ident)+);*) => { $(
    impl View for glam::$t { fn enc(&self, e: &mut Enc) { let mut m = 0u8; let mut i = 0; $( if self.$c { m |= 1 << i; } i += 1; )+ let _ = i; e.u8(m) } }
    impl<'a> Model<'a> for glam::$t {
        fn gen(g: &mut Gen<'a>) -> Self { $( let $c = g.rng.bool(); )+ glam::$t::new($($c),+) }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let v = d.u8()?; e.u8(v & ((1 << $n) - 1)); Ok(()) }
        fn shape() -> Shape { Shape::fixed(1) }
    }
)* } }
bvecs!(BVec2, 2, x y; BVec3, 3, x y z; BVec4, 4, x y z w);

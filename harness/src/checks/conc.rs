//! C21: shared values and buffers used from many threads, and atomics changed while they are written.
use crate::cx::*;
use crate::model::*;
use crate::ops::*;
use crate::rng::*;
use crate::sut::*;
use speedy::{BigEndian, Endianness, LittleEndian, Readable, Writable};
use std::io;
use std::sync::atomic::*;
use std::sync::Mutex;
use Ordering::SeqCst;

/// A barrier of which a race detector understands every step.
struct Gate { n: usize, at: AtomicUsize, turn: AtomicUsize }
impl Gate {
    fn new(n: usize) -> Gate { Gate { n, at: AtomicUsize::new(0), turn: AtomicUsize::new(0) } }
    fn pass(&self) {
        let t = self.turn.load(SeqCst);
        if self.at.fetch_add(1, SeqCst) + 1 == self.n { self.at.store(0, SeqCst); self.turn.store(t + 1, SeqCst); }
        else { let mut k = 0u32; while self.turn.load(SeqCst) == t { k += 1; if cfg!(miri) || k > 200 { std::thread::yield_now() } else { std::hint::spin_loop() } } }
    }
}
/// Takes a few bytes at a time and gives way between them.
struct SlowSink { out: Vec<u8>, rng: Rng }
impl io::Write for SlowSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(1 + self.rng.us(3)); self.out.extend_from_slice(&b[..n]); dither(&mut self.rng); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn dither(r: &mut Rng) { match r.below(8) { 0 => std::thread::yield_now(), 1 | 2 => for _ in 0..r.below(60) { std::hint::spin_loop() }, _ => {} } }

// ---------------------------------------------------------------- atomics
trait At: Send + Sync + 'static { const NAME: &'static str; const BITS: u32; fn mk(v: u64) -> Self; fn put(&self, v: u64); fn exchange(&self, v: u64) -> u64; fn get(&self) -> u64; }
macro_rules! at { ($($t:ident $b:ty, $u:ty;)*) => { $( impl At for $t {
    const NAME: &'static str = stringify!($t);
    const BITS: u32 = <$b>::BITS;
    fn mk(v: u64) -> Self { $t::new(v as $b) }
    fn put(&self, v: u64) { self.store(v as $b, SeqCst) }
    fn exchange(&self, v: u64) -> u64 { self.swap(v as $b, SeqCst) as $u as u64 }
    fn get(&self) -> u64 { self.load(SeqCst) as $u as u64 }
} )* } }
at! { AtomicU8 u8, u8; AtomicU16 u16, u16; AtomicU32 u32, u32; AtomicU64 u64, u64; AtomicI8 i8, u8; AtomicI16 i16, u16; AtomicI32 i32, u32; AtomicI64 i64, u64; }
fn mask(bits: u32) -> u64 { if bits == 64 { !0 } else { (1 << bits) - 1 } }
const MUL: u64 = 0x9E37_79B9_7F4A_7C15;
const INV: u64 = 0xF1DE_83E1_9937_733D;
/// The nth value written: every bit changes often, and no two are the same.
fn code(n: u64, bits: u32) -> u64 { n.wrapping_mul(MUL).wrapping_add(0x5555_5555_5555_5555) & mask(bits) }
fn decode(v: u64, bits: u32) -> u64 { v.wrapping_sub(0x5555_5555_5555_5555).wrapping_mul(INV) & mask(bits) }

#[derive(Readable, Writable)] struct DS<A> { x: u16, a: A, y: u32 }
#[derive(Writable)] #[repr(C)] struct DC<A> { a: A, b: A, c: A }
#[derive(Writable)] #[repr(transparent)] struct DT<A>(A);
#[derive(Writable)] enum DE<A> { #[allow(dead_code)] Z(u8), A { k: u8, a: A } }
/// Something with an atomic inside of it.
trait Hold<A: At>: Writable<Endianness> + Writable<LittleEndian> + Writable<BigEndian> + Send + Sync { const NAME: &'static str; fn mk(v: u64) -> Self; fn at(&self) -> &A; /// bytes before and after
    fn around(be: bool) -> (Vec<u8>, Vec<u8>); }
fn num(v: u64, n: usize, be: bool) -> Vec<u8> { let mut b = v.to_le_bytes()[..n].to_vec(); if be { b.reverse() } b }
macro_rules! hold { ($($name:literal, $t:ty, |$v:ident| $mk:expr, |$s:ident| $at:expr, |$n:ident, $be:ident| $around:expr;)*) => { $(
    impl<A: At + Writable<Endianness> + Writable<LittleEndian> + Writable<BigEndian>> Hold<A> for $t { const NAME: &'static str = $name; fn mk($v: u64) -> Self { $mk } fn at(&self) -> &A { let $s = self; $at } fn around($be: bool) -> (Vec<u8>, Vec<u8>) { let $n = A::BITS as usize / 8; $around } }
)* } }
struct Own<A>(A);
impl<C: speedy::Context, A: Writable<C>> Writable<C> for Own<A> { fn write_to<T: ?Sized + speedy::Writer<C>>(&self, w: &mut T) -> Result<(), C::Error> { self.0.write_to(w) } fn bytes_needed(&self) -> Result<usize, C::Error> { self.0.bytes_needed() } }
hold! {
    "itself", Own<A>, |v| Own(A::mk(v)), |s| &s.0, |_n, _be| (vec![], vec![]);
    "tuple", (u8, A, u16), |v| (7, A::mk(v), 0x0908), |s| &s.1, |_n, be| (vec![7], num(0x0908, 2, be));
    "array", [A; 3], |v| [A::mk(1), A::mk(v), A::mk(2)], |s| &s[1], |n, be| (num(1, n, be), num(2, n, be));
    "Vec", Vec<A>, |v| vec![A::mk(1), A::mk(2), A::mk(v)], |s| &s[2], |n, be| ([num(3, 4, be), num(1, n, be), num(2, n, be)].concat(), vec![]);
    "Box<[]>", Box<[A]>, |v| vec![A::mk(v), A::mk(5)].into(), |s| &s[0], |n, be| (num(2, 4, be), num(5, n, be));
    "Option", Option<A>, |v| Some(A::mk(v)), |s| s.as_ref().unwrap(), |_n, _be| (vec![1], vec![]);
    "struct", DS<A>, |v| DS { x: 0x0102, a: A::mk(v), y: 0x03040506 }, |s| &s.a, |_n, be| (num(0x0102, 2, be), num(0x03040506, 4, be));
    "repr(C) struct", DC<A>, |v| DC { a: A::mk(9), b: A::mk(v), c: A::mk(8) }, |s| &s.b, |n, be| (num(9, n, be), num(8, n, be));
    "transparent struct", DT<A>, |v| DT(A::mk(v)), |s| &s.0, |_n, _be| (vec![], vec![]);
    "enum", DE<A>, |v| DE::A { k: 3, a: A::mk(v) }, |s| match s { DE::A { a, .. } => a, _ => unreachable!() }, |_n, be| ([num(1, 4, be), vec![3]].concat(), vec![]);
    "Vec of structs", Vec<DC<A>>, |v| vec![DC { a: A::mk(1), b: A::mk(2), c: A::mk(3) }, DC { a: A::mk(4), b: A::mk(v), c: A::mk(5) }], |s| &s[1].b, |n, be| ([num(2, 4, be), num(1, n, be), num(2, n, be), num(3, n, be), num(4, n, be)].concat(), num(5, n, be));
    "map value", std::collections::BTreeMap<u8, A>, |v| [(6u8, A::mk(v))].into_iter().collect(), |s| &s[&6], |_n, be| ([num(1, 4, be), vec![6]].concat(), vec![]);
}
/// Serializes in one of several ways.
fn ser<A: At, H: Hold<A>>(v: &H, how: u64, be: bool, len: usize, r: &mut Rng) -> Result<Vec<u8>, String> {
    let e = if be { Endianness::BigEndian } else { Endianness::LittleEndian };
    let x = call(|| match how {
        0 => v.write_to_vec_with_ctx(e),
        1 => if be { v.write_to_vec_with_ctx(BigEndian {}) } else { Writable::<LittleEndian>::write_to_vec(v) },
        2 => { let mut b = vec![0xAA; len]; v.write_to_buffer_with_ctx(e, &mut b).map(|_| b) }
        3 => { let mut b = vec![0xAA; len]; if be { v.write_to_buffer_with_ctx(BigEndian {}, &mut b) } else { Writable::<LittleEndian>::write_to_buffer(v, &mut b) }.map(|_| b) }
        4 => { let mut s = SlowSink { out: vec![], rng: r.clone() }; r.u64(); v.write_to_stream_with_ctx(e, &mut s).map(|_| s.out) }
        _ => { let mut s = vec![]; v.write_to_stream_with_ctx(e, &mut s).map(|_| s) }
    });
    match x { Ok(Ok(b)) => Ok(b), Ok(Err(e)) => Err(format!("fails: {e}")), Err(Caught::Panic(m)) => Err(format!("panics: {m}")), Err(_) => Err("?".into()) }
}
/// Takes the value out of what was written, if everything around it is right.
fn peel<A: At, H: Hold<A>>(b: &[u8], be: bool) -> Result<u64, String> {
    let (pre, post) = H::around(be);
    let n = A::BITS as usize / 8;
    if b.len() != pre.len() + n + post.len() || b[..pre.len()] != pre[..] || b[pre.len() + n..] != post[..] { return Err(format!("wrote {} where {} ? {} was to be expected", hex(b), hex(&pre), hex(&post))); }
    let mut v = [0u8; 8];
    v[..n].copy_from_slice(&b[pre.len()..pre.len() + n]);
    if be { v[..n].reverse(); }
    Ok(u64::from_le_bytes(v))
}
#[derive(Clone, Copy)]
struct Obs { from: u64, to: u64, val: u64 }
/// One writer of known values: each value written by speedy must be one held between the call's start and end.
fn single<A: At, H: Hold<A>>(cx: &mut Cx, observers: usize, n: u64, seed: u64) {
    let h = H::mk(code(0, A::BITS));
    let n = n.min(mask(A::BITS) - 1);
    let (started, done, stop) = (AtomicU64::new(0), AtomicU64::new(0), AtomicBool::new(false));
    let gate = Gate::new(observers + 1);
    let bad: Mutex<Option<(String, String)>> = Mutex::new(None);
    let hists: Mutex<Vec<(u64, u64, u64)>> = Mutex::new(vec![]);
    let limit = n * 4 + 20;
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut r = Rng::new(seed);
            gate.pass();
            for k in 1..=n {
                started.store(k, SeqCst);
                h.at().put(code(k, A::BITS));
                done.store(k, SeqCst);
                if cfg!(miri) || r.one_in(4) { dither(&mut r); }
            }
            stop.store(true, SeqCst);
        });
        for o in 0..observers {
            let (h, gate, stop, started, done, bad, hists) = (&h, &gate, &stop, &started, &done, &bad, &hists);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (o as u64 + 1));
                let len = { let (a, b) = H::around(false); a.len() + b.len() + A::BITS as usize / 8 };
                let (mut last, mut seen, mut overlap, mut hash) = (0, 0, 0, 0);
                gate.pass();
                loop {
                    let end = stop.load(SeqCst);
                    let (be, how) = (r.bool(), r.below(6));
                    let lo = done.load(SeqCst);
                    let b = ser::<A, H>(h, how, be, len, &mut r);
                    let hi = started.load(SeqCst);
                    let got = b.and_then(|b| peel::<A, H>(&b, be));
                    seen += 1;
                    let fail = |k: &str, m: String| { let mut b = bad.lock().unwrap(); if b.is_none() { *b = Some((k.into(), m)); } };
                    match got {
                        Err(m) => { fail("shape", m); return }
                        Ok(v) => {
                            let k = decode(v, A::BITS);
                            if k < lo || k > hi { fail("torn or stale", format!("wrote {v:#x} during a call in which the value went from number {lo} ({:#x}) to number {hi} ({:#x})", code(lo, A::BITS), code(hi, A::BITS))); return }
                            if k < last { fail("order", format!("wrote value number {k} after number {last}")); return }
                            if hi > lo { overlap += 1; }
                            hash = mix(hash ^ (k - last).min(3) ^ (hi - lo).min(7) << 2 ^ how << 8);
                            last = k;
                        }
                    }
                    if end || seen >= limit { break; }
                }
                hists.lock().unwrap().push((seen, overlap, hash));
            });
        }
    });
    let name = format!("{} in {}", A::NAME, <H as Hold<A>>::NAME);
    for (seen, overlap, hash) in hists.into_inner().unwrap() {
        cx.count("values of atomics written by speedy", seen);
        cx.count("of which while the atomic changed", overlap);
        cx.eval(hash, overlap > 0);
    }
    if let Some((k, m)) = bad.into_inner().unwrap() { cx.viol(format!("C21|{name}|{k}"), format!("{name}, one writer: {m}"), &[("seed", seed.to_string())]); }
}
/// Several writers which swap unique values in; the order of values is known afterwards.
fn several<A: At, H: Hold<A>>(cx: &mut Cx, writers: usize, observers: usize, n: u64, seed: u64) {
    let h = H::mk(code(0, A::BITS));
    let n = n.min((mask(A::BITS) - 1) / writers as u64);
    let clock = AtomicU64::new(1);
    let left = AtomicUsize::new(writers);
    let gate = Gate::new(observers + writers);
    let swaps: Mutex<Vec<(u64, u64, u64, u64)>> = Mutex::new(vec![]);
    let obs: Mutex<Vec<Vec<Obs>>> = Mutex::new(vec![]);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let limit = n as usize * 4 + 20;
    std::thread::scope(|s| {
        for w in 0..writers {
            let (h, clock, left, gate, swaps) = (&h, &clock, &left, &gate, &swaps);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (w as u64 + 100));
                let mut mine = Vec::with_capacity(n as usize);
                gate.pass();
                for k in 0..n {
                    let new = code(1 + w as u64 * n + k, A::BITS);
                    let a = clock.fetch_add(1, SeqCst);
                    let old = h.at().exchange(new);
                    let b = clock.fetch_add(1, SeqCst);
                    mine.push((old, new, a, b));
                    dither(&mut r);
                }
                left.fetch_sub(1, SeqCst);
                swaps.lock().unwrap().extend(mine);
            });
        }
        for o in 0..observers {
            let (h, clock, left, gate, obs, bad) = (&h, &clock, &left, &gate, &obs, &bad);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (o as u64 + 1));
                let len = { let (a, b) = H::around(false); a.len() + b.len() + A::BITS as usize / 8 };
                let mut mine = vec![];
                gate.pass();
                loop {
                    let end = left.load(SeqCst) == 0;
                    let (be, how) = (r.bool(), r.below(6));
                    let from = clock.fetch_add(1, SeqCst);
                    let b = ser::<A, H>(h, how, be, len, &mut r);
                    let to = clock.fetch_add(1, SeqCst);
                    match b.and_then(|b| peel::<A, H>(&b, be)) { Ok(val) => mine.push(Obs { from, to, val }), Err(m) => { *bad.lock().unwrap() = Some(m); break } }
                    if end || mine.len() >= limit { break; }
                }
                obs.lock().unwrap().push(mine);
            });
        }
    });
    let name = format!("{} in {}", A::NAME, <H as Hold<A>>::NAME);
    let rep = [("seed", seed.to_string())];
    if let Some(m) = bad.into_inner().unwrap() { cx.viol(format!("C21|{name}|shape"), format!("{name}, {writers} writers: {m}"), &rep); return; }
    // the order in which the values were swapped in
    let next: std::collections::HashMap<u64, (u64, u64, u64)> = swaps.into_inner().unwrap().into_iter().map(|(o, n, a, b)| (o, (n, a, b))).collect();
    let mut place = std::collections::HashMap::new();
    let mut steps = vec![(0u64, 0u64)];
    let mut v = code(0, A::BITS);
    place.insert(v, 0usize);
    while let Some(&(nx, a, b)) = next.get(&v) { place.insert(nx, steps.len()); steps.push((a, b)); v = nx; if steps.len() > next.len() + 1 { break } }
    assert_eq!(steps.len(), next.len() + 1, "the history of swaps is no chain");
    for o in obs.into_inner().unwrap() {
        let (mut last, mut hash, mut overlap) = (0, 0, 0u64);
        for x in &o {
            let Some(&p) = place.get(&x.val) else { cx.viol(format!("C21|{name}|torn"), format!("{name}, {writers} writers: wrote {:#x}, which it never held", x.val), &rep); break };
            let begun = steps[p].0 < x.to;
            let over = steps.get(p + 1).map_or(false, |s| s.1 < x.from);
            if !begun || over { cx.viol(format!("C21|{name}|stale"), format!("{name}, {writers} writers: wrote {:#x} (number {p} in order) outside of the time it was held", x.val), &rep); break }
            if p < last { cx.viol(format!("C21|{name}|order"), format!("{name}, {writers} writers: wrote value number {p} after number {last}"), &rep); break }
            if steps.get(p + 1).map_or(false, |s| s.0 < x.to) || steps[p].1 > x.from { overlap += 1; }
            hash = mix(hash ^ (p - last).min(3) as u64 ^ ((x.to - x.from).min(15)) << 2);
            last = p;
        }
        cx.count("values of atomics written by speedy", o.len() as u64);
        cx.count("of which while the atomic changed", overlap);
        cx.eval(hash, overlap > 0);
    }
}
/// Independent writes seen by two serializers which look in opposite order: they must agree on which came first.
fn iriw<A: At + Writable<LittleEndian> + Writable<BigEndian> + Writable<Endianness>>(cx: &mut Cx, rounds: u64, seed: u64) {
    let mut both = 0u64;
    for k in 0..rounds {
        let (x, y) = (Own(A::mk(0)), Own(A::mk(0)));
        let gate = Gate::new(4);
        let out: Mutex<Vec<(usize, u64, u64)>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            let (x, y, gate, out) = (&x, &y, &gate, &out);
            s.spawn(move || { gate.pass(); x.0.put(1) });
            s.spawn(move || { gate.pass(); y.0.put(1) });
            for o in 0..2 {
                s.spawn(move || {
                    let mut r = Rng::new(seed ^ k << 8 ^ o);
                    let (a, b) = if o == 0 { (x, y) } else { (y, x) };
                    let len = A::BITS as usize / 8;
                    gate.pass();
                    let how = r.below(6);
                    let one = ser::<A, Own<A>>(a, how, false, len, &mut r);
                    let two = ser::<A, Own<A>>(b, how, false, len, &mut r);
                    let get = |v: Result<Vec<u8>, String>| v.and_then(|b| peel::<A, Own<A>>(&b, false)).unwrap_or(99);
                    let (f, g) = (get(one), get(two));
                    out.lock().unwrap().push((o as usize, f, g));
                });
            }
        });
        let o = out.into_inner().unwrap();
        let ahead = o.iter().filter(|o| (o.1, o.2) == (1, 0)).count();
        if ahead == 2 { cx.viol(format!("C21|{}|independent writes", A::NAME), format!("two threads which serialize two {}s in opposite order disagree on which was set first", A::NAME), &[("seed", seed.to_string())]); }
        if ahead > 0 { both += 1; }
        let h = o.iter().fold(0, |h, o| h ^ (o.0 as u64 + 1) << (o.1 * 2 + o.2) as u32 * 4);
        cx.eval(hash_bytes(h, A::NAME.as_bytes()), ahead > 0);
    }
    cx.count("rounds of independent writes", rounds);
    cx.count("of which one thread saw only the first", both);
}
/// What is done before an atomic is set is seen by whoever wrote out the value set: nothing but speedy's own access orders the two threads.
fn publish<A: At, H: Hold<A>>(cx: &mut Cx, rounds: u64, seed: u64) {
    struct Cell(std::cell::UnsafeCell<[u64; 2]>);
    unsafe impl Sync for Cell {}
    let (mut seen, mut bad) = (0u64, None);
    for k in 0..rounds {
        let h = H::mk(0);
        let cell = Cell(std::cell::UnsafeCell::new([0; 2]));
        let gate = Gate::new(2);
        let got = Mutex::new(None);
        std::thread::scope(|s| {
            let (h, cell, gate, got) = (&h, &cell, &gate, &got);
            s.spawn(move || { gate.pass(); unsafe { *cell.0.get() = [seed, k] }; h.at().put(1) });
            s.spawn(move || {
                let mut r = Rng::new(seed ^ k << 8);
                let len = { let (a, b) = H::around(false); a.len() + b.len() + A::BITS as usize / 8 };
                gate.pass();
                for _ in 0..2000 {
                    let (how, be) = (r.below(6), r.bool());
                    match ser::<A, H>(h, how, be, len, &mut r).and_then(|b| peel::<A, H>(&b, be)) {
                        Ok(0) => std::thread::yield_now(),
                        Ok(1) => { let c = unsafe { *cell.0.get() }; *got.lock().unwrap() = Some(if c == [seed, k] { Ok(()) } else { Err(format!("{c:?}")) }); return }
                        x => { *got.lock().unwrap() = Some(Err(format!("{x:?}"))); return }
                    }
                }
            });
        });
        match got.into_inner().unwrap() { Some(Ok(())) => seen += 1, Some(Err(m)) => bad = Some(m), None => {} }
    }
    cx.count("data published through an atomic", seen);
    cx.eval(hash_bytes(seed, <H as Hold<A>>::NAME.as_bytes()), seen > 0);
    if let Some(m) = bad { cx.viol(format!("C21|{} in {}|publication", A::NAME, <H as Hold<A>>::NAME), format!("after the new value of a {} was written out, what preceded it is not seen: {m}", A::NAME), &[("seed", seed.to_string())]); }
}

// ---------------------------------------------------------------- sharing
static IN_FLIGHT: AtomicUsize = AtomicUsize::new(0);
struct Job { i: usize, be: bool, seed: u64, data: Vec<u8>, off: usize }
/// All threads read the same buffers at the same time, and write equal values, while single results are known.
fn zoo(cx: &mut Cx, threads: usize) {
    let all = crate::zoo::all();
    let mine: Vec<usize> = cx.ops(&all);
    let all = &all;
    for round in 0..cx.a.work.max(1) {
        if cx.late() { break; }
        let mut jobs = vec![];
        for &i in &mine {
            let op = &*all[i];
            if cfg!(miri) && op.shape().regex { continue; }
            let mut r = cx.rng(&[210, i as u64, round]);
            let be = r.bool() && op.supports(true) || !op.supports(false);
            let (data, _) = if r.one_in(4) { input(op, &mut r, be) } else { let b = if cfg!(miri) { 6 } else { *r.pick(&[10, 40, 400, 4000]) }; (valid(op, &mut r, be, b), "valid") };
            if op.shape().zero_elems && op.refdec(be, true, &data).huge() { continue; }
            jobs.push((Placed::new(&data, 0), Job { i, be, seed: r.u64(), off: if r.bool() { 0 } else { r.us(16) }, data }));
        }
        if cfg!(miri) { let mut r = cx.rng(&[211, round]); for i in (1..jobs.len()).rev() { let j = r.us(i + 1); jobs.swap(i, j) } jobs.truncate(6); }
        let placed: Vec<Share> = jobs.iter().map(|j| Share(Placed::new(&j.1.data, j.1.off))).collect();
        let jobs: Vec<Job> = jobs.into_iter().map(|j| j.1).collect();
        let gate = Gate::new(threads);
        let results: Mutex<Vec<(usize, usize, String, String)>> = Mutex::new(vec![]);
        let overlapped = AtomicU64::new(0);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (jobs, placed, gate, results, overlapped) = (&jobs, &placed, &gate, &results, &overlapped);
                s.spawn(move || {
                    let mut mine = vec![];
                    for (k, j) in jobs.iter().enumerate() {
                        let op = &*all[j.i];
                        let mut r = Rng::new(j.seed ^ t as u64);
                        gate.pass();
                        let others = IN_FLIGHT.fetch_add(1, SeqCst);
                        let text = match r.below(4) {
                            0 => {
                                let mut text = String::new();
                                op.with_value(Rng::new(j.seed), 40, PLAIN, &mut |v| { let e = in_harness(|| v.wire(j.be)); let want = if e.bad.is_some() { "error".to_string() } else { hexfull(&e.out) }; let got = match v.to_vec(j.be) { Ok(Ok(b)) => hexfull(&b), Ok(Err(_)) => "error".into(), Err(m) => m }; text = if got == want { "what it should".into() } else { format!("{got} for {want}") }; });
                                ("w", text)
                            }
                            1 if op.shape().borrow => ("b", show(op.read_buf(Way::Buf, false, j.be, &placed[k].0))),
                            1 | 2 => ("b", show(op.read_buf(WAYS[r.us(2)], r.bool(), j.be, &placed[k].0))),
                            _ => if r.bool() { ("c", show(op.read_buf(WAYS[2 + r.us(3)], r.bool(), j.be, &placed[k].0))) } else { let p = Plan::random(&mut r); let b = r.bool(); ("c", show(op.read_stream(b, r.bool(), j.be, &mut SimRead::new(&placed[k].0, p)))) },
                        };
                        IN_FLIGHT.fetch_sub(1, SeqCst);
                        if others > 0 { overlapped.fetch_add(1, SeqCst); }
                        mine.push((k, t, text.0.to_string(), text.1));
                    }
                    results.lock().unwrap().extend(mine);
                });
            }
        });
        for (k, t, kind, text) in results.into_inner().unwrap() {
            let j = &jobs[k];
            let op = &*all[j.i];
            let want = match kind.as_str() {
                "w" => "what it should".to_string(),
                k => { let x = op.refdec(j.be, k == "b", &placed[jobs.iter().position(|x| std::ptr::eq(x, j)).unwrap()].0); if x.ok() { hexfull(&x.canon) } else { "error".into() } }
            };
            cx.count(if kind == "w" { "concurrent writes compared" } else { "concurrent reads compared" }, 1);
            cx.eval(key(j.i, j.be, &j.data) ^ t as u64, !j.data.is_empty());
            if text != want { cx.viol(format!("C21|{}|{}|concurrent {kind}", op.name(), op.ctx()), format!("{} be={}: thread {t} got {text} instead of {want} ({kind})", op.name(), j.be), &[("data", hexfull(&j.data)), ("seed", j.seed.to_string())]); }
        }
        cx.count("of which other threads were inside speedy at the start", overlapped.load(SeqCst));
    }
}
struct Share(Placed);
unsafe impl Sync for Share {}
unsafe impl Send for Share {}
fn show(o: Out) -> String { match o { Out::Ok(g) => hexfull(&g.canon), Out::Err(_) => "error".into(), Out::Panic(m) => m } }

/// One value shared by all threads, which serialize it at the same time.
fn shared<T: Model<'static> + Writable<Endianness> + Sync + 'static>(cx: &mut Cx, name: &str, threads: usize, idx: u64) {
    if cx.late() || !cx.mine(idx as usize) { return; }
    for k in 0..if cfg!(miri) { 1 } else { (cx.a.work / 4).max(1) } {
        let mut r = cx.rng(&[212, idx, k]);
        let arena: &'static Arena = Box::leak(Box::new(Arena::new()));
        let mut g = Gen::new(Rng::new(r.u64()), arena, if cfg!(miri) { 8 } else { *r.pick(&[20, 200, 2000]) });
        g.plain = true;
        let v: T = Model::gen(&mut g);
        let wires: Vec<Enc> = [false, true].iter().map(|&be| { let mut e = Enc::wire(be); v.enc(&mut e); e }).collect();
        if wires[0].bad.is_some() { continue; }
        let gate = Gate::new(threads);
        let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
        let (v_, wires_, gate_, bad_) = (&v, &[wires[0].out.clone(), wires[1].out.clone()], &gate, &bad);
        let seed = r.u64();
        let each = if cfg!(miri) { 2 } else { 12 };
        std::thread::scope(|s| for t in 0..threads {
            s.spawn(move || {
                let mut r = Rng::new(seed ^ t as u64);
                gate_.pass();
                for _ in 0..each {
                    let be = r.bool();
                    let e = if be { Endianness::BigEndian } else { Endianness::LittleEndian };
                    let want = &wires_[be as usize];
                    let got = call(|| match r.below(4) {
                        0 => v_.write_to_vec_with_ctx(e),
                        1 => { let mut b = vec![0; want.len()]; v_.write_to_buffer_with_ctx(e, &mut b).map(|_| b) }
                        2 => { let mut s = SlowSink { out: vec![], rng: r.clone() }; v_.write_to_stream_with_ctx(e, &mut s).map(|_| s.out) }
                        _ => Writable::<Endianness>::bytes_needed(v_).map(|n| if n == want.len() { want.clone() } else { vec![0xEE; n] }),
                    });
                    let ok = matches!(&got, Ok(Ok(b)) if b == want);
                    if !ok { bad_.lock().unwrap().push(match got { Ok(Ok(b)) => hex(&b), Ok(Err(e)) => format!("error {e}"), Err(Caught::Panic(m)) => m, _ => "?".into() }); break; }
                }
            });
        });
        cx.count("shared values serialized by several threads", 1);
        cx.eval(hash_bytes(idx ^ 0x21_0000, &wires[0].out), true);
        if let Some(b) = bad.into_inner().unwrap().first() { cx.viol(format!("C21|{name}|shared"), format!("a {name} shared by {threads} threads is written as {b} instead of {}", hex(&wires[0].out)), &[]); }
    }
}

pub fn c21(cx: &mut Cx) {
    let secs = cx.a.secs;
    let cores = std::thread::available_parallelism().map_or(4, |n| n.get());
    let threads = if cfg!(miri) { 3 } else { cores.clamp(3, 6) };
    cx.a.secs = secs / 2;
    let n = if cfg!(miri) { 12 } else { 1500 };
    let mut round = 0u64;
    macro_rules! atomics { ($($a:ty)*) => { { let mut i = 0usize; $( { atomics!(@ $a, i, Own<$a>; (u8, $a, u16); [$a; 3]; Vec<$a>; Box<[$a]>; Option<$a>; DS<$a>; DC<$a>; DT<$a>; DE<$a>; Vec<DC<$a>>; std::collections::BTreeMap<u8, $a>);
        i += 1; if cx.mine(i + round as usize) && !cx.late() { let s = cx.rng(&[215, i as u64, round]).u64(); iriw::<$a>(cx, if cfg!(miri) { 3 } else { 60 }, s); } } )* } };
        (@ $a:ty, $i:ident, $($h:ty);*) => { $( $i += 1; if cx.mine($i + round as usize) && !cx.late() {
            let s = cx.rng(&[213, $i as u64, round]).u64();
            let obs = if cfg!(miri) { 1 + (s % 2) as usize } else { 2 };
            if cfg!(miri) && s & 4 == 0 { several::<$a, $h>(cx, 2, 1, n / 2, s); } else { single::<$a, $h>(cx, obs, n, s); }
            if !cfg!(miri) { several::<$a, $h>(cx, 2, 2, n / 2, s ^ 77); }
            publish::<$a, $h>(cx, if cfg!(miri) { 1 } else { 4 }, s ^ 78);
        } )* }; }
    loop {
        atomics! { AtomicU8 AtomicU16 AtomicU32 AtomicU64 AtomicI8 AtomicI16 AtomicI32 AtomicI64 }
        round += 1;
        if cx.late() || (!cfg!(miri) && round >= cx.a.work) { break; }
    }
    cx.a.secs = secs * 7 / 10;
    let mut idx = 0;
    macro_rules! sh { ($($t:ty;)*) => { $( idx += 1; shared::<$t>(cx, stringify!($t), threads, idx); )* } }
    sh! {
        u64; String; Vec<u8>; Vec<u32>; Vec<f64>; Vec<String>; Box<[u16]>; Option<String>; (u8, u32, String); [u64; 5]; std::collections::BTreeMap<u8, String>; std::collections::HashMap<String, u32>; std::collections::HashSet<u64>;
        std::collections::BTreeSet<i16>; std::net::IpAddr; std::time::SystemTime; Vec<char>; std::borrow::Cow<'static, str>; std::borrow::Cow<'static, [u32]>; AtomicU32; Vec<AtomicU64>; Vec<Option<bool>>; speedy::private::VarInt64;
        glam::Mat4; Vec<glam::Vec3>; uuid::Uuid; smallvec::SmallVec<[u32; 8]>; indexmap_v2::IndexMap<i64, Vec<u8>>; indexmap_v1::IndexSet<String>; chrono::DateTime<chrono::Utc>; std::ops::RangeInclusive<i64>; Result<u16, String>; Vec<Vec<u16>>; [String; 3];
    }
    cx.a.secs = secs;
    zoo(cx, threads);
    let c = cx.counters.get("values of atomics written by speedy").copied().unwrap_or(0);
    cx.sample(|| format!("{c} values of atomics written while others changed them"));
}

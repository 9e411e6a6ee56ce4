//! C16: everything built, opened or mapped during a call is released exactly once, wherever the call is cut off.
use crate::cx::*;
use crate::model::*;
use crate::ops::{hex, hexfull};
use crate::rng::*;
use crate::sut::*;
use speedy::{Context, Endianness, Error, Readable, Reader, Writable, Writer};
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io;

// ---------------------------------------------------------------- registry
const CAP: usize = if cfg!(miri) { 700 } else { 20_000 };
thread_local! {
    /// 0 not yet built, 1 alive, 2 dropped
    static ST: [Cell<u8>; CAP] = const { [const { Cell::new(0) }; CAP] };
    static NEXT: Cell<u32> = const { Cell::new(0) };
    static BAD: Cell<Option<(&'static str, u32)>> = const { Cell::new(None) };
    static ZST: Cell<i64> = const { Cell::new(0) };
    /// user code called so far, and what happens at which of these calls
    static EV: Cell<u32> = const { Cell::new(0) };
    static AT: Cell<u32> = const { Cell::new(u32::MAX) };
    static ACT: Cell<Act> = const { Cell::new(Act::Panic) };
    /// the panic was in a comparison, where std's own collections may leak
    static CMP: Cell<bool> = const { Cell::new(false) };
    static ON: Cell<bool> = const { Cell::new(false) };
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act { Panic, Fail, Eof }
fn born() -> u32 { NEXT.with(|n| { let i = n.get(); if i as usize >= CAP { panic!("too many tracked values in one case") } n.set(i + 1); ST.with(|s| s[i as usize].set(1)); i }) }
fn died(id: u32) {
    let bad = |m| BAD.with(|b| if b.get().is_none() { b.set(Some((m, id))) });
    if id as usize >= CAP { return bad("dropped a value which was never built"); }
    ST.with(|s| match s[id as usize].get() { 1 => s[id as usize].set(2), 0 => bad("dropped a value which was never built"), _ => bad("dropped a value twice") })
}
/// A call from the code under test into ours.
fn event() -> Option<Act> {
    if !ON.with(|o| o.get()) || std::thread::panicking() { return None; }
    let n = EV.with(|e| { let n = e.get(); e.set(n + 1); n });
    if n != AT.with(|a| a.get()) { return None; }
    let act = ACT.with(|a| a.get());
    if act == Act::Panic { std::panic::resume_unwind(Box::new(Planned)); }
    Some(act)
}
fn compare() { CMP.with(|c| c.set(true)); event(); CMP.with(|c| c.set(false)); }
fn err(a: Act) -> Error { match a { Act::Eof => u8::read_from_stream_unbuffered(&[][..]).unwrap_err(), _ => Error::custom("planned") } }
fn is_alive(id: u32) -> bool { ST.with(|s| s[id as usize].get() == 1) }

pub struct Tok(u32);
impl Tok { fn new() -> Tok { Tok(born()) } }
impl Drop for Tok { fn drop(&mut self) { died(self.0) } }

// ---------------------------------------------------------------- values
const MAGIC: u64 = 0x5EED_1E55_0B5E_55ED;
/// One to four bytes: the low two bits of the first say how many follow.
pub struct T { magic: u64, v: u32, id: u32 }
impl T { fn new(v: u32) -> T { let id = born(); T { magic: MAGIC ^ id as u64, v, id } } }
impl Drop for T { fn drop(&mut self) { if self.magic != MAGIC ^ self.id as u64 { BAD.with(|b| if b.get().is_none() { b.set(Some(("dropped something which is not a value", self.id))) }); return; } died(self.id) } }
impl Clone for T { fn clone(&self) -> T { event(); T::new(self.v) } }
impl Default for T { fn default() -> T { event(); T::new(0) } }
impl PartialEq for T { fn eq(&self, o: &T) -> bool { compare(); self.v == o.v } }
impl Eq for T {}
impl PartialOrd for T { fn partial_cmp(&self, o: &T) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for T { fn cmp(&self, o: &T) -> std::cmp::Ordering { compare(); self.v.cmp(&o.v) } }
impl std::hash::Hash for T { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { compare(); self.v.hash(h) } }
impl std::fmt::Debug for T { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "T({})", self.v) } }
impl<'a, C: Context<Error = Error>> Readable<'a, C> for T {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, Error> {
        if let Some(a) = event() { return Err(err(a)); }
        let k = r.read_u8()?;
        let mut v = k as u32;
        for i in 0..k & 3 { v |= (r.read_u8()? as u32) << (8 * (i + 1)); }
        let t = T::new(v);
        if let Some(a) = event() { return Err(err(a)); }
        Ok(t)
    }
    fn minimum_bytes_needed() -> usize { 1 }
}
impl<C: Context<Error = Error>> Writable<C> for T {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), Error> {
        if let Some(a) = event() { return Err(err(a)); }
        for i in 0..1 + (self.v & 3) { w.write_u8((self.v >> (8 * i)) as u8)?; }
        if let Some(a) = event() { return Err(err(a)); }
        Ok(())
    }
    fn bytes_needed(&self) -> Result<usize, Error> { if let Some(a) = event() { return Err(err(a)); } Ok(1 + (self.v & 3) as usize) }
}
impl View for T { fn enc(&self, e: &mut Enc) { if e.canon { e.num(self.v.to_le_bytes()); return; } for i in 0..1 + (self.v & 3) { e.u8((self.v >> (8 * i)) as u8) } } }
impl<'a> Model<'a> for T {
    fn gen(g: &mut Gen<'a>) -> T { let k = g.rng.below(256) as u32; let m = (1u64 << (8 * (1 + (k & 3)))) - 1; T::new((k | (g.rng.u64() as u32) << 8) & m as u32) }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { let k = d.u8()?; let mut v = k as u32; for i in 0..k & 3 { v |= (d.u8()? as u32) << (8 * (i + 1)) } e.num(v.to_le_bytes()); Ok(()) }
    fn shape() -> Shape { Shape::fixed(1).var().fails() }
}
/// No bytes in memory, one when encoded.
#[derive(Debug)]
pub struct Z;
impl Z { fn new() -> Z { ZST.with(|z| z.set(z.get() + 1)); Z } }
impl Drop for Z { fn drop(&mut self) { ZST.with(|z| { z.set(z.get() - 1); if z.get() < 0 { BAD.with(|b| if b.get().is_none() { b.set(Some(("dropped more zero-sized values than were built", 0))) }) } }) } }
impl Clone for Z { fn clone(&self) -> Z { Z::new() } }
impl<'a, C: Context<Error = Error>> Readable<'a, C> for Z { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, Error> { if let Some(a) = event() { return Err(err(a)); } r.read_u8()?; Ok(Z::new()) } fn minimum_bytes_needed() -> usize { 1 } }
impl<C: Context<Error = Error>> Writable<C> for Z { fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), Error> { if let Some(a) = event() { return Err(err(a)); } w.write_u8(7) } }
impl View for Z { fn enc(&self, e: &mut Enc) { if !e.canon { e.u8(7) } } }
impl<'a> Model<'a> for Z { fn gen(_: &mut Gen<'a>) -> Z { Z::new() } fn dec(d: &mut Dec, _: &mut Enc) -> DRes { d.u8().map(|_| ()) } fn shape() -> Shape { Shape::fixed(1).fails() } }

macro_rules! modelled { ($name:ident $(<$lt:lifetime>)?, |$s:ident, $e:ident| $enc:expr, |$g:ident| $gen:expr) => {
    impl $(<$lt>)? View for $name $(<$lt>)? { fn enc(&self, $e: &mut Enc) { let $s = self; $enc } }
    impl<'a> Model<'a> for $name $(<$lt>)? { fn gen($g: &mut Gen<'a>) -> Self { $gen } fn dec(_: &mut Dec, _: &mut Enc) -> DRes { unreachable!() } fn shape() -> Shape { Shape::fixed(1).var().fails() } }
} }
#[derive(Readable, Writable, Debug)] pub struct S1G<X> { a: u16, s: X, b: String, t: X, v: Vec<X>, w: (X, u32, X) } pub type S1 = S1G<T>;
modelled!(S1, |s, e| { s.a.enc(e); s.s.enc(e); s.b.enc(e); s.t.enc(e); s.v.enc(e); s.w.enc(e) }, |g| S1 { a: Model::gen(g), s: Model::gen(g), b: Model::gen(g), t: Model::gen(g), v: gen_with(g, 9), w: Model::gen(g) });
#[derive(Readable, Writable, Debug)] pub struct S2G<'a, X: Clone> { s: X, #[speedy(length_type = u8)] v: Vec<X>, #[speedy(varint)] x: u64, name: Cow<'a, str>, #[speedy(constant_prefix = "zz")] u: X, c: Cow<'a, [X]>, #[speedy(length_type = u64_varint)] o: Option<Vec<X>>, z: X } pub type S2<'a> = S2G<'a, T>;
modelled!(S2<'a>, |s, e| { s.s.enc(e); enc_with(&s.v, e, LK::U8); if e.canon { e.num(s.x.to_le_bytes()) } else { e.raw(&varint(s.x)) } s.name.enc(e); if !e.canon { e.raw(b"zz") } s.u.enc(e); s.c.enc(e); enc_opt_with(&s.o, e, LK::Var); s.z.enc(e) },
    |g| S2 { s: Model::gen(g), v: gen_with(g, 9), x: g.rng.int() as u64, name: Model::gen(g), u: Model::gen(g), c: Cow::Owned(gen_with(g, 5)), o: if g.rng.bool() { Some(gen_with(g, 5)) } else { None }, z: Model::gen(g) });
#[derive(Readable, Writable, Debug)] #[speedy(tag_type = u8)] pub enum S3G<X> { A(X, u16, X), B { s: X, v: Vec<X>, t: Option<X> }, #[speedy(tag = 50)] C, D([X; 3]) } pub type S3 = S3G<T>;
modelled!(S3, |s, e| match s { S3::A(a, b, c) => { 0u8.enc(e); a.enc(e); b.enc(e); c.enc(e) } S3::B { s, v, t } => { 1u8.enc(e); s.enc(e); v.enc(e); t.enc(e) } S3::C => 50u8.enc(e), S3::D(x) => { 51u8.enc(e); x.enc(e) } },
    |g| match g.rng.below(8) { 0 | 1 => S3::A(Model::gen(g), Model::gen(g), Model::gen(g)), 2..=4 => S3::B { s: Model::gen(g), v: gen_with(g, 8), t: Model::gen(g) }, 5 | 6 => S3::D(Model::gen(g)), _ => S3::C });
#[derive(Readable, Writable, Debug)] pub struct S4G<X: Ord> { s: X, n: u8, #[speedy(length = n)] v: Vec<X>, #[speedy(length = n / 2)] m: BTreeMap<u8, X>, #[speedy(length = n / 2)] t: BTreeSet<X>, z: X } pub type S4 = S4G<T>;
modelled!(S4, |s, e| { s.s.enc(e); s.n.enc(e); s.v.body(e); s.m.body(e); s.t.body(e); s.z.enc(e) }, |g| { let n = g.rng.below(9) as u8; let mut t = BTreeSet::new(); let mut k = 0; while t.len() < n as usize / 2 { t.insert(T::new(k << 2)); k += 1; } S4 { s: Model::gen(g), n, v: (0..n).map(|_| T::gen(g)).collect(), m: (0..n / 2).map(|i| (i, T::gen(g))).collect(), t, z: Model::gen(g) } });
#[derive(Readable, Writable, Debug)] pub struct S5G<X> { s: X, #[speedy(length = ..)] v: Vec<X> } pub type S5 = S5G<T>;
modelled!(S5, |s, e| { s.s.enc(e); s.v.body(e) }, |g| S5 { s: Model::gen(g), v: gen_with(g, 9) });
#[derive(Readable, Writable, Debug)] pub struct S6G<X: Ord> { s: X, #[speedy(length = ..)] v: BTreeMap<X, X> } pub type S6 = S6G<T>;
modelled!(S6, |s, e| { s.s.enc(e); s.v.body(e) }, |g| S6 { s: Model::gen(g), v: gen_with(g, 9) });
#[derive(Readable, Writable, Debug)] pub struct S7G<X: Default> { s: X, t: [X; 2], #[speedy(skip)] y: X, #[speedy(default_on_eof)] u: X } pub type S7 = S7G<T>;
modelled!(S7, |s, e| { s.s.enc(e); s.t.enc(e); s.u.enc(e) }, |g| S7 { s: Model::gen(g), t: Model::gen(g), y: Model::gen(g), u: Model::gen(g) });
#[derive(Readable, Writable, Debug)] #[speedy(peek_tag)] #[speedy(tag_type = u16)] pub enum S8G<X> { #[speedy(tag = 0x0101)] A { t: u16, s: X, v: Vec<X> }, #[speedy(tag = 0x0202)] B { t: u16, x: u64, s: [X; 2] } } pub type S8 = S8G<T>;
modelled!(S8, |s, e| match s { S8::A { t, s, v } => { t.enc(e); s.enc(e); v.enc(e) } S8::B { t, x, s } => { t.enc(e); x.enc(e); s.enc(e) } }, |g| if g.rng.bool() { S8::A { t: 0x101, s: Model::gen(g), v: gen_with(g, 6) } } else { S8::B { t: 0x202, x: Model::gen(g), s: Model::gen(g) } });
#[derive(Readable, Writable, Debug)] pub struct S9G<X>(X, [X; 3], Box<X>, Option<Box<[X]>>); pub type S9 = S9G<T>;
modelled!(S9, |s, e| { s.0.enc(e); s.1.enc(e); s.2.enc(e); s.3.enc(e) }, |g| S9G(Model::gen(g), Model::gen(g), Model::gen(g), Model::gen(g)));

// ---------------------------------------------------------------- contexts and streams
pub struct DCtx { be: bool, _tok: Tok }
impl DCtx { fn new(be: bool) -> DCtx { DCtx { be, _tok: Tok::new() } } }
impl Context for DCtx { type Error = Error; fn endianness(&self) -> Endianness { event(); if self.be { Endianness::BigEndian } else { Endianness::LittleEndian } } }
struct Src<'d>(SimRead<'d>, #[allow(dead_code)] Tok);
impl<'d> io::Read for Src<'d> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { match event() { Some(Act::Eof) => return Ok(0), Some(_) => return Err(io::Error::new(io::ErrorKind::Other, "planned")), None => {} } self.0.read(b) } }
struct Snk(SimWrite, #[allow(dead_code)] Tok);
impl io::Write for Snk {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { match event() { Some(_) => return Err(io::Error::new(io::ErrorKind::Other, "planned")), None => {} } self.0.write(b) }
    fn flush(&mut self) -> io::Result<()> { match event() { Some(_) => Err(io::Error::new(io::ErrorKind::Other, "planned")), None => Ok(()) } }
}

// ---------------------------------------------------------------- the monitor
/// Descriptors and mappings this process has of a file.
#[cfg(not(miri))]
fn handles(path: &std::path::Path) -> (usize, usize) {
    let fds = std::fs::read_dir("/proc/self/fd").map(|d| d.filter_map(|e| std::fs::read_link(e.ok()?.path()).ok()).filter(|p| p.starts_with(path)).count()).unwrap_or(0);
    let maps = std::fs::read_to_string("/proc/self/maps").map(|m| m.lines().filter(|l| l.contains(path.to_str().unwrap())).count()).unwrap_or(0);
    (fds, maps)
}
#[cfg(miri)]
fn handles(_: &std::path::Path) -> (usize, usize) { (0, 0) }

struct Seen { events: u32, bad: Option<String>, leaked: isize, ended: u8 }
/// Runs `f` with something happening at call `at`, and says what was not released properly.
/// `keep`: values below this id belong to the caller and must stay alive.
fn watch(at: u32, act: Act, keep: u32, f: impl FnOnce() -> bool) -> Seen {
    NEXT.with(|n| n.set(keep));
    ST.with(|s| for c in &s[keep as usize..] { if c.get() == 0 { break } c.set(0) });
    BAD.with(|b| b.set(None));
    let z = ZST.with(|z| z.get());
    CMP.with(|c| c.set(false));
    EV.with(|e| e.set(0));
    AT.with(|a| a.set(at));
    ACT.with(|a| a.set(act));
    let (r, mem) = measured(1 << 28, || { ON.with(|o| o.set(true)); let r = call(f); ON.with(|o| o.set(false)); match r { Ok(true) => 0u8, Ok(false) => 1, Err(Caught::Planned) => 2, Err(Caught::Panic(m)) => { std::mem::forget(m); 3 } } });
    let n = NEXT.with(|n| n.get());
    let mut bad = BAD.with(|b| b.get()).map(|(m, id)| format!("{m} (number {id} of {n})"));
    let excused = CMP.with(|c| c.get());
    if bad.is_none() {
        let left = (keep..n).filter(|&i| is_alive(i)).count();
        if left > 0 && !excused { bad = Some(format!("{left} of {} values built were never dropped", n - keep)); }
        let gone = (0..keep).filter(|&i| !is_alive(i)).count();
        if gone > 0 { bad = Some(format!("{gone} of the caller's {keep} values were dropped")); }
        let zz = ZST.with(|z| z.get());
        if zz != z { bad = Some(format!("zero-sized values built minus dropped: {}", zz - z)); }
    }
    ZST.with(|x| x.set(z));
    Seen { events: EV.with(|e| e.get()), bad, leaked: if excused { 0 } else { mem.leaked }, ended: r }
}

pub trait FamD { type F<'a>: Model<'a> + Readable<'a, DCtx> + Writable<DCtx>; const NAME: &'static str; }
/// What happens where: each call of ours up to a limit, and a sample of those beyond.
fn points(r: &mut Rng, n: u32) -> Vec<u32> { if cfg!(miri) && n > 0 { return (0..4).map(|_| r.below(n as u64) as u32).collect() } if n <= 36 { (0..n).collect() } else { let mut v: Vec<u32> = (0..16).chain(n - 6..n).collect(); for _ in 0..14 { v.push(16 + r.below((n - 22) as u64) as u32) } v } }
const RWAYS: [&str; 7] = ["read_from_buffer", "read_with_length_from_buffer", "copying read", "copying read with &mut context", "unbuffered stream", "buffered stream", "file"];
const WWAYS: [&str; 7] = ["write_to_vec", "write_to_vec with &mut context", "write_to_buffer", "write_to_buffer with &mut context", "write_to_stream", "write_to_file", "bytes_needed"];

fn one<F: FamD>(cx: &mut Cx, idx: u64) {
    type Of<'x, F> = <F as FamD>::F<'x>;
    let path = cx.scratch("drops.bin");
    for k in 0..(4 * cx.a.work / 100).max(1) {
        if cx.late() { break; }
        let mut r = cx.rng(&[16, idx, k, cx.a.shard as u64]);
        let be = r.bool();
        let budget = if cfg!(miri) { 12 } else { *r.pick(&[6, 12, 30, 90]) };
        NEXT.with(|n| n.set(0));
        let seed = r.u64();
        let mut data = { let arena = Arena::new(); let mut g = Gen::new(Rng::new(seed), &arena, budget); let v = Of::<F>::gen(&mut g); let mut e = Enc::wire(be); v.enc(&mut e); e.out };
        match r.below(6) { 0 => { let n = r.us(data.len() + 1); data.truncate(n) } 1 => mutate(&mut r, &mut data), _ => {} }
        let plan = Plan { interrupt: 0, ..Plan::random(&mut r) };
        let data = Placed::new(&data, r.us(16));
        let judge = |cx: &mut Cx, how: &str, what: String, s: &Seen, file: bool| {
            match s.ended { 0 => cx.count("calls which succeeded", 1), 1 => cx.count("calls which failed", 1), 2 => cx.count("calls cut off by a panic of the user's code", 1), _ => {} }
            let rep = [("type", F::NAME.to_string()), ("data", hexfull(&data)), ("how", how.to_string()), ("what", what.clone()), ("be", be.to_string())];
            if s.ended == 3 { cx.viol(format!("C16|{}|panic", F::NAME), format!("{how} of {} {} with {what} panics by itself", F::NAME, hex(&data)), &rep); }
            if let Some(b) = &s.bad { cx.viol(format!("C16|{}|drops", F::NAME), format!("{how} of {} {} be={be} with {what}: {b}", F::NAME, hex(&data)), &rep); }
            else if s.leaked != 0 { cx.viol(format!("C16|{}|memory", F::NAME), format!("{how} of {} {} be={be} with {what}: {} bytes of memory never released", F::NAME, hex(&data), s.leaked), &rep); }
            if file { let (f, m) = handles(&path); cx.count("descriptors and mappings looked for", 1); if f + m > 0 { cx.viol(format!("C16|{}|handles", F::NAME), format!("{how} of {} with {what}: {f} descriptors and {m} mappings left behind", F::NAME), &rep); } }
        };
        // ---- reading
        std::fs::write(&path, &data[..]).unwrap();
        for how in 0..7usize {
            if cfg!(miri) && cx.late() { break; }
            if how == 6 && (cfg!(miri) || k % 3 != 0) || cfg!(miri) && !r.one_in(3) { continue; }
            let case = format!("{} of {} be={be}", RWAYS[how], F::NAME);
            about_to(&case, &data);
            let run = |data: &[u8], at, act| watch(at, act, 0, || {
                let ctx = || DCtx::new(be);
                match how {
                    0 => Of::<F>::read_from_buffer_with_ctx(ctx(), data).is_ok(),
                    1 => Of::<F>::read_with_length_from_buffer_with_ctx(ctx(), data).0.is_ok(),
                    2 => Of::<F>::read_from_buffer_copying_data_with_ctx(ctx(), data).is_ok(),
                    3 => { let mut c = ctx(); Of::<F>::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut c, data).0.is_ok() }
                    4 => Of::<F>::read_from_stream_unbuffered_with_ctx(ctx(), Src(SimRead::new(data, plan.clone()), Tok::new())).is_ok(),
                    5 => Of::<F>::read_from_stream_buffered_with_ctx(ctx(), Src(SimRead::new(data, plan.clone()), Tok::new())).is_ok(),
                    _ => Of::<F>::read_from_file_with_ctx(ctx(), &path).is_ok(),
                }
            });
            let dry = run(&data, u32::MAX, Act::Panic);
            judge(cx, RWAYS[how], "nothing".into(), &dry, how == 6);
            for p in points(&mut r, dry.events) {
                for act in [Act::Panic, Act::Fail, Act::Eof] {
                    let s = run(&data, p, act);
                    judge(cx, RWAYS[how], format!("{act:?} in the {p}th of {} calls of user code", dry.events), &s, how == 6);
                    cx.eval(hash_bytes(idx << 40 | (how as u64) << 32 | (p as u64) << 2 | act as u64, &data), true);
                }
            }
            if how != 6 {
                let n = data.len();
                for c in (0..n).filter(|&c| cfg!(miri) && c % 7 == n % 7 || !cfg!(miri) && (n <= 30 || c < 12 || c + 6 > n || (c * 7 + k as usize) % 11 == 0)) {
                    let cut = Placed::new(&data[..c], c);
                    about_to(&case, &cut);
                    let s = run(&cut, u32::MAX, Act::Panic);
                    judge(cx, RWAYS[how], format!("only {c} bytes"), &s, false);
                    cx.eval(hash_bytes(idx << 40 | (how as u64) << 32 | 3, &data[..c]), true);
                    about_to(&case, &data);
                }
            }
        }
        // ---- writing
        NEXT.with(|n| n.set(0));
        ST.with(|s| for c in s { if c.get() == 0 { break } c.set(0) });
        let arena = Arena::new();
        let mut g = Gen::new(Rng::new(seed), &arena, budget);
        let v = Of::<F>::gen(&mut g);
        let (wire, before) = { let mut e = Enc::wire(be); v.enc(&mut e); let mut c = Enc::canon(); v.enc(&mut c); (e.out, c.out) };
        // values which came to nothing while making this one (doubles in a set) do not count
        let base = NEXT.with(|n| n.get());
        let born_dead: Vec<u32> = (0..base).filter(|&i| !is_alive(i)).collect();
        ST.with(|s| for &i in &born_dead { s[i as usize].set(1) });
        let mut buf = vec![0u8; wire.len() + 3];
        for how in 0..7usize {
            if cfg!(miri) && cx.late() { break; }
            if how == 5 && k % 3 != 0 || cfg!(miri) && !r.one_in(3) { continue; }
            let case = format!("{} of {} be={be}", WWAYS[how], F::NAME);
            about_to(&case, &wire);
            let mut run = |at, act, room: usize| watch(at, act, base, || {
                let ctx = || DCtx::new(be);
                let plan = Plan { fault: if room < wire.len() { Some((room, io::ErrorKind::Other)) } else { None }, ..plan.clone() };
                match how {
                    0 => v.write_to_vec_with_ctx(ctx()).is_ok(),
                    1 => { let mut c = ctx(); v.write_to_vec_with_ctx_mut(&mut c).is_ok() }
                    2 => v.write_to_buffer_with_ctx(ctx(), &mut buf[..room]).is_ok(),
                    3 => { let mut c = ctx(); v.write_to_buffer_with_ctx_mut(&mut c, &mut buf[..room]).is_ok() }
                    4 => v.write_to_stream_with_ctx(ctx(), Snk(SimWrite::new(plan), Tok::new())).is_ok(),
                    5 => v.write_to_file_with_ctx(ctx(), &path).is_ok(),
                    _ => Writable::<DCtx>::bytes_needed(&v).is_ok(),
                }
            });
            let room = wire.len();
            let dry = run(u32::MAX, Act::Panic, room);
            judge(cx, WWAYS[how], "nothing".into(), &dry, how == 5);
            for p in points(&mut r, dry.events) {
                for act in [Act::Panic, Act::Fail] {
                    let s = run(p, act, room);
                    judge(cx, WWAYS[how], format!("{act:?} in the {p}th of {} calls of user code", dry.events), &s, how == 5);
                    cx.eval(hash_bytes(idx << 40 | (how as u64 + 8) << 32 | (p as u64) << 2 | act as u64, &wire), true);
                }
            }
            if (2..5).contains(&how) { for c in (0..room).filter(|&c| cfg!(miri) && c % 7 == k as usize % 7 || !cfg!(miri) && (room <= 30 || c < 12 || c + 6 > room || c % 11 == 0)) { let s = run(u32::MAX, Act::Panic, c); judge(cx, WWAYS[how], format!("room for {c} bytes"), &s, false); cx.eval(hash_bytes(idx << 40 | (how as u64 + 8) << 32 | 3, &wire[..c]), true); } }
        }
        let mut c = Enc::canon();
        v.enc(&mut c);
        if c.out != before { cx.viol(format!("C16|{}|changed by writing", F::NAME), format!("writing {} changed it", F::NAME), &[]); }
        ST.with(|s| for &i in &born_dead { s[i as usize].set(2) });
        BAD.with(|b| b.set(None));
        drop(v);
        drop(arena);
        if let Some((m, _)) = BAD.with(|b| b.take()) { cx.viol(format!("C16|{}|after writing", F::NAME), format!("after writing {} {m}", F::NAME), &[]); }
        cx.sample(|| format!("{} {} be={be}", F::NAME, hex(&data)));
    }
    let _ = std::fs::remove_file(&path);
}

/// The balance of memory and descriptors over reads and writes of everything else.
fn zoo_balance(cx: &mut Cx) {
    let all = crate::zoo::all();
    let path = cx.scratch("balance.bin");
    for i in cx.ops(&all) {
        let op = &*all[i];
        if op.shape().regex { continue; }
        for k in 0..(14 * cx.a.work / 100).max(1) {
            let mut r = cx.rng(&[161, i as u64, k]);
            let be = r.bool() && op.supports(true) || !op.supports(false);
            let (data, _) = input(op, &mut r, be);
            let data = Placed::new(&data, r.us(16));
            if op.shape().zero_elems && op.refdec(be, true, &data).huge() { continue; }
            let case = format!("reading {} be={be}", op.name());
            about_to(&case, &data);
            let plan = Plan { fault: if r.one_in(3) { Some((r.us(data.len() + 1), io::ErrorKind::BrokenPipe)) } else { None }, ..Plan::random(&mut r) };
            if k % 8 == 0 { std::fs::write(&path, &data[..]).unwrap(); }
            for how in 0..8 {
                if how == 7 && (cfg!(miri) || k % 8 != 0) { continue; }
                let ((), mem) = measured(1 << 28, || { let _ = match how { 0..=4 => op.read_buf(crate::ops::WAYS[how], false, be, &data), 5 | 6 => op.read_stream(how == 6, false, be, &mut SimRead::new(&data, plan.clone())), _ => op.read_file(false, be, &path) }; });
                cx.count("balances taken", 1);
                if mem.leaked > 0 { 
                    // once more: the first use of something may set it up for good
                    let ((), again) = measured(1 << 28, || { let _ = match how { 0..=4 => op.read_buf(crate::ops::WAYS[how], false, be, &data), 5 | 6 => op.read_stream(how == 6, false, be, &mut SimRead::new(&data, plan.clone())), _ => op.read_file(false, be, &path) }; });
                    if again.leaked > 0 { cx.viol(format!("C16|{}|balance", op.name()), format!("reading {} {} leaves {} bytes of memory behind", op.name(), hex(&data), again.leaked), &[("data", hexfull(&data)), ("type", op.name().to_string())]); }
                }
                if how == 7 { let (f, m) = handles(&path); cx.count("descriptors and mappings looked for", 1); if f + m > 0 { cx.viol("C16|handles".to_string(), format!("reading {} from a file leaves {f} descriptors and {m} mappings behind", op.name()), &[("data", hexfull(&data))]); } }
            }
            cx.eval(key(i, be, &data) ^ 0x16, data.len() > 0);
        }
    }
    let _ = std::fs::remove_file(&path);
}

macro_rules! fams { ($cx:ident; $($n:ident = $t:ty;)*) => { { let mut i = 0u64; $( #[allow(non_camel_case_types)] struct $n; impl FamD for $n { type F<'a> = $t; const NAME: &'static str = stringify!($t); } i += 1; if !$cx.late() && $cx.mine(i as usize) && $cx.a.only.as_ref().map_or(true, |o| o == $n::NAME) { one::<$n>($cx, i); } )* } } }
pub fn c16(cx: &mut Cx) {
    families(cx);
    zoo_balance(cx);
}
pub fn families(cx: &mut Cx) {
    fams! { cx;
        A1 = T; A2 = (T, u16, T); A3 = Vec<T>; A4 = [T; 3]; A5 = Option<T>; A6 = Result<T, T>; A7 = Vec<(T, T)>; A8 = BTreeMap<u8, T>; A9 = BTreeMap<T, u8>; A10 = BTreeSet<T>;
        A11 = Box<[T]>; A12 = Cow<'a, [T]>; A13 = Box<T>; A14 = std::ops::Range<T>; A15 = (T, String, Vec<T>, T, u64); A16 = Option<Vec<T>>; A17 = HashMap<u8, T>; A18 = smallvec::SmallVec<[T; 2]>; A19 = indexmap_v2::IndexMap<T, T>; A20 = indexmap_v1::IndexSet<T>;
        A21 = Vec<Vec<T>>; A22 = [[T; 2]; 3]; A23 = [Vec<T>; 2]; A24 = Vec<[T; 3]>; A25 = HashSet<T>; A26 = HashMap<T, T>; A27 = Cow<'a, HashSet<T>>; A28 = Cow<'a, BTreeMap<T, T>>; A29 = [T; 17]; A30 = Vec<Z>; A31 = [Z; 5]; A32 = (Z, T, Z); A33 = Vec<(Z, T)>;
        A34 = indexmap_v1::IndexMap<T, Vec<T>>; A35 = indexmap_v2::IndexSet<T>; A36 = smallvec::SmallVec<[Vec<T>; 1]>; A37 = [Option<Box<T>>; 4]; A38 = (T, T, T, T, T, T, T, T, T, T); A39 = std::ops::RangeInclusive<T>; A40 = Box<[Box<[T]>]>; A41 = Vec<Option<Result<T, String>>>; A42 = [(String, T); 3]; A43 = BTreeMap<String, [T; 2]>; A44 = Cow<'a, BTreeSet<T>>; A45 = Cow<'a, HashMap<u16, T>>;
        B1 = S1; B2 = S2<'a>; B3 = S3; B4 = S4; B5 = S5; B6 = S6; B7 = S7; B8 = S8; B9 = S9; B10 = Vec<S1>; B11 = [S3; 3]; B12 = Option<S9>; B13 = Vec<S8>; B14 = BTreeMap<u8, S3>; B15 = [S2<'a>; 2]; B16 = (S7, ); B17 = Box<S4>;
    }
}

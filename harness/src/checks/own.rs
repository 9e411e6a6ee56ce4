//! C26: hand-written implementations: every type through a user's own reader and writer, programs of writer
//! operations on every writer, and the byte-order helpers.
use super::write::{each_value, sink};
use crate::cx::*;
use crate::model::*;
use crate::ops::*;
use crate::rng::*;
use crate::sut::*;
use crate::{elems, values};
use speedy::private::get_error_kind;
use speedy::{Context, Endianness, Error, Writable, Writer};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

pub fn c26(cx: &mut Cx) {
    let secs = cx.a.secs;
    if cx.a.shard == 0 { byte_order(cx); }
    cx.a.secs = secs * 3 / 10;
    scripts(cx);
    cx.a.secs = secs * 65 / 100;
    each_value(cx, 200, 0, own_writer);
    cx.a.secs = secs;
    super::read::each_input(cx, 500, |_| false, input, own_reader);
}

// ---- every type through the required methods only
fn own_writer(cx: &mut Cx, c: &mut super::write::VCase, v: &dyn Val) {
    let sig = |k: &str| format!("C26|writer|{}|{}|{k}", c.op.name(), c.op.ctx());
    let want = v.wire(c.be);
    let n = want.out.len();
    let text = |r: &W<()>| match r { Ok(Ok(())) => "succeeds".to_string(), Ok(Err(e)) => format!("fails with {e}"), Err(m) => format!("panics: {m}") };
    let (r, got) = v.to_own(c.be, usize::MAX);
    match (&r, want.bad) {
        (Ok(Ok(())), None) if got == want.out => {}
        (Ok(Err(_)), Some(_)) => {}
        _ => cx.viol(sig("bytes"), format!("{}: writing to a user's writer {} with {} written instead of {} ({:?})", c.case, text(&r), hex(&got), hex(&want.out), want.bad), &c.rep("own writer")),
    }
    cx.count("values written to a user's writer", 1);
    if want.bad.is_none() && n > 0 {
        let room = if c.r.bool() { c.r.us(n) } else { n - 1 - c.r.us(n.min(9)) };
        let (r, got) = v.to_own(c.be, room);
        let mine = matches!(&r, Ok(Err(e)) if e.to_string().contains("no room left in my writer"));
        if !mine || got != want.out[..room] { cx.viol(sig("room"), format!("{}: writing to a user's writer with room for {room} of {n} bytes {} having written {} of {}", c.case, text(&r), hex(&got), hex(&want.out)), &c.rep("own writer")); }
        cx.count("user's writers which ran out of room", 1);
    }
    if cfg!(miri) { return; }
    if c.r.one_in(8) && want.bad.is_none() { let b = sink(cx, c, v, 0, n); if !matches!(&b, Ok(Ok(b)) if *b == want.out) { cx.viol(sig("vec"), format!("{}: differs in a vec", c.case), &c.rep("vec")); } }
    cx.eval(key(c.i, c.be, &want.out) ^ 5, n > 0);
}
fn own_reader(cx: &mut Cx, c: &mut super::read::Case) {
    let want = c.op.refdec(c.be, false, &c.d);
    if want.huge() { return; }
    let sig = |k: &str| format!("C26|reader|{}|{}|{k}", c.op.name(), c.op.ctx());
    let rep = [("type", c.op.name().to_string()), ("ctx", c.op.ctx().to_string()), ("big_endian", c.be.to_string()), ("data", hexfull(&c.d))];
    let out = c.op.read_own(c.be, &c.d);
    match (&out, want.ok()) {
        (Out::Ok(g), true) if g.invalid.is_none() && g.canon == want.canon && (g.used == Some(want.used) || c.op.shape().open || want.defaulted) => {}
        (Out::Err(_), false) => {}
        _ => cx.viol(sig("outcome"), format!("{}: a user's reader over {} gives {out:?}; the format says {:?} {} used {}", c.case, hex(&c.d), want.res, hex(&want.canon), want.used), &rep),
    }
    cx.count(if want.ok() { "inputs accepted by a user's reader" } else { "inputs rejected by a user's reader" }, 1);
    cx.eval(key(c.i, c.be, &c.d) ^ 6, !c.d.is_empty());
    cx.sample(|| format!("{} {} by a user's reader -> {out:?}", c.case, hex(&c.d)));
}

// ---- programs of writer operations
#[derive(Clone, Debug, PartialEq)]
struct WCtx { be: bool, touched: u64 }
impl Context for WCtx { type Error = Error; fn endianness(&self) -> Endianness { if self.be { Endianness::BigEndian } else { Endianness::LittleEndian } } }
#[derive(Clone, Debug)]
enum WOp { Num(u8, u128), Bytes(u64, usize), Value(u8, u64), Slice(u8, u64, usize), Coll(u8, u64, usize), Refs(u8, u64, usize), Varint(u64), Endian(bool), Ask, Can(usize), Fail }
thread_local! {
    static OPS: RefCell<Vec<WOp>> = RefCell::new(vec![]);
    static ANSWERS: RefCell<Vec<Option<bool>>> = RefCell::new(vec![]);
    static ASKED: RefCell<Vec<bool>> = RefCell::new(vec![]);
    static SIZE: Cell<Option<usize>> = Cell::new(None);
    static FINAL: RefCell<Option<WCtx>> = RefCell::new(None);
}
fn some<'a, T: Model<'a>>(seed: u64, arena: &'a Arena, n: usize) -> Vec<T> { let mut g = Gen::new(Rng::new(seed), arena, 60); g.plain = true; (0..n).map(|_| { g.budget = 60; T::gen(&mut g) }).collect() }
struct Program;
fn go<T: ?Sized + Writer<WCtx>>(w: &mut T, ops: &[WOp]) -> Result<(), Error> {
    for op in ops {
        match *op {
            WOp::Num(k, v) => match k {
                0 => w.write_u8(v as u8), 1 => w.write_u16(v as u16), 2 => w.write_u32(v as u32), 3 => w.write_u64(v as u64), 4 => w.write_u128(v),
                5 => w.write_i8(v as i8), 6 => w.write_i16(v as i16), 7 => w.write_i32(v as i32), 8 => w.write_i64(v as i64), 9 => w.write_i128(v as i128),
                10 => w.write_f32(f32::from_bits(v as u32)), _ => w.write_f64(f64::from_bits(v as u64)),
            }?,
            WOp::Bytes(seed, n) => w.write_bytes(&block(seed, n))?,
            WOp::Value(t, seed) => { let a = Arena::new(); values!(t, T => { let v = some::<T<'_>>(seed, &a, 1); w.write_value(&v[0])? }) }
            WOp::Slice(t, seed, n) => { let a = Arena::new(); elems!(t, T => { let v = some::<T<'_>>(seed, &a, n); w.write_slice(&v)? }) }
            WOp::Coll(t, seed, n) => { let a = Arena::new(); elems!(t, T => { let v = some::<T<'_>>(seed, &a, n); w.write_collection(v)? }) }
            WOp::Refs(t, seed, n) => { let a = Arena::new(); elems!(t, T => { let v = some::<T<'_>>(seed, &a, n); w.write_collection(v.iter().map(|x| (x, 7u16)))? }) }
            WOp::Varint(v) => w.write_u64_varint(v)?,
            WOp::Endian(be) => { let c = w.context_mut(); c.be = be; c.touched += 1; }
            WOp::Ask => { let x = w.endianness() == Endianness::BigEndian; let y = w.context().be; ASKED.with(|a| a.borrow_mut().push(x == y)); ASKED.with(|a| a.borrow_mut().push(x)) }
            WOp::Can(n) => { let x = w.can_write_at_least(n); ANSWERS.with(|a| a.borrow_mut().push(x)) }
            WOp::Fail => return Err(Error::custom("my failure")),
        }
    }
    Ok(())
}
impl Writable<WCtx> for Program {
    fn write_to<T: ?Sized + Writer<WCtx>>(&self, w: &mut T) -> Result<(), Error> {
        let ops = OPS.with(|o| o.borrow().clone());
        ANSWERS.with(|a| a.borrow_mut().clear());
        ASKED.with(|a| a.borrow_mut().clear());
        let r = go(w, &ops);
        FINAL.with(|f| f.replace(if SIZE.with(|s| s.get()).is_some() { Some(w.context().clone()) } else { None }));
        r
    }
    fn bytes_needed(&self) -> Result<usize, Error> { match SIZE.with(|s| s.get()) { Some(n) => Ok(n), None => ByDefault(self).bytes_needed() } }
}
struct ByDefault<'p>(&'p Program);
impl<'p> Writable<WCtx> for ByDefault<'p> { fn write_to<T: ?Sized + Writer<WCtx>>(&self, w: &mut T) -> Result<(), Error> { self.0.write_to(w) } }
fn block(seed: u64, n: usize) -> Vec<u8> { let mut x = seed; (0..n).map(|_| { x = mix(x); x as u8 }).collect() }

struct Plain { out: Vec<u8>, can: Vec<usize>, asked: Vec<bool>, failed: bool, ctx: WCtx }
fn model(ops: &[WOp], be: bool) -> Plain {
    let mut m = Plain { out: vec![], can: vec![], asked: vec![], failed: false, ctx: WCtx { be, touched: 0 } };
    fn put<'a, T: Model<'a>>(m: &mut Plain, v: &[T], extra: bool) { for x in v { let mut e = Enc::wire(m.ctx.be); x.enc(&mut e); if extra { 7u16.enc(&mut e) } assert!(e.bad.is_none()); m.out.extend(e.out) } }
    for op in ops {
        match *op {
            WOp::Num(k, v) => { let w = [1, 2, 4, 8, 16, 1, 2, 4, 8, 16, 4, 8][k as usize]; let mut b = v.to_le_bytes()[..w].to_vec(); if m.ctx.be { b.reverse() } m.out.extend(b) }
            WOp::Bytes(seed, n) => m.out.extend(block(seed, n)),
            WOp::Value(t, seed) => { let a = Arena::new(); values!(t, T => put(&mut m, &some::<T<'_>>(seed, &a, 1), false)) }
            WOp::Slice(t, seed, n) | WOp::Coll(t, seed, n) => { let a = Arena::new(); elems!(t, T => put(&mut m, &some::<T<'_>>(seed, &a, n), false)) }
            WOp::Refs(t, seed, n) => { let a = Arena::new(); elems!(t, T => put(&mut m, &some::<T<'_>>(seed, &a, n), true)) }
            WOp::Varint(v) => m.out.extend(varint(v)),
            WOp::Endian(b) => { m.ctx.be = b; m.ctx.touched += 1 }
            WOp::Ask => { m.asked.push(true); m.asked.push(m.ctx.be) }
            WOp::Can(_) => m.can.push(m.out.len()),
            WOp::Fail => { m.failed = true; break }
        }
    }
    m
}
fn scripts(cx: &mut Cx) {
    let path = cx.scratch("written.bin");
    for k in 0..2500 * cx.a.work / 100 {
        if cx.late() { break; }
        let mut r = cx.rng(&[26, cx.a.shard as u64, k]);
        let be = r.bool();
        let contexts = r.bool();
        let n = 1 + match r.below(3) { 0 => r.us(3), 1 => r.us(8), _ => r.us(30) };
        let mut ops: Vec<WOp> = (0..n).map(|_| {
            let len = match r.below(8) { 0 => 0, 1 => 1, 2..=5 => r.us(12), 6 => r.us(300), _ => *r.pick(&[127, 128, 1024, 8191, 8192, 8193, 9000]) };
            let few = if len > 300 { len / 8 } else { len };
            let (t, v, s) = (r.below(super::script::NELEMS as u64) as u8, r.below(super::script::NVALUES as u64) as u8, r.u64());
            match r.below(12) {
                0 | 1 => WOp::Num(r.below(12) as u8, (r.u64() as u128) << 64 | r.u64() as u128), 2 => WOp::Bytes(s, len), 3 | 4 => WOp::Value(v, s), 5 | 6 => WOp::Slice(t, s, few), 7 => WOp::Coll(t, s, few), 8 => WOp::Refs(t, s, few.min(60)), 9 => WOp::Varint(r.int() as u64),
                10 => WOp::Can(match r.below(4) { 0 => 0, 1 => r.us(10), 2 => r.us(400), _ => usize::MAX / 2 + r.us(9) }), // a writer's position never gets near what would overflow
                _ => if contexts { if r.one_in(3) { WOp::Ask } else { WOp::Endian(r.bool()) } } else { WOp::Num(r.below(12) as u8, r.u64() as u128) },
            }
        }).collect();
        if r.one_in(8) { let at = r.us(ops.len() + 1); ops.insert(at, WOp::Fail); }
        let m = model(&ops, be);
        OPS.with(|o| o.replace(ops.clone()));
        let total = m.out.len();
        let case = format!("be={be} ops {ops:?}");
        about_to(&case, &[]);
        let show = |r: &W<Vec<u8>>| match r { Ok(Ok(b)) => hex(b), Ok(Err(e)) => format!("error {:?}", get_error_kind(e)), Err(m) => format!("panic: {m}") };
        let w = |r: Result<Result<Vec<u8>, Error>, Caught>| -> W<Vec<u8>> { r.map_err(|c| match c { Caught::Planned => "planned".into(), Caught::Panic(m) => m }) };
        let c = || WCtx { be, touched: 0 };
        let rep = |how: &str| [("script", format!("be={be} {ops:?}")), ("how", how.to_string())];
        SIZE.with(|s| s.set(None));
        if !ops.iter().any(|o| matches!(o, WOp::Endian(_) | WOp::Ask)) {
            // sizes counted by the default bytes_needed
            let got = call(|| Program.bytes_needed());
            let ok = match &got { Ok(Ok(n)) => !m.failed && *n == total, Ok(Err(e)) => m.failed && e.to_string().contains("my failure"), _ => false };
            if !ok { cx.viol("C26|script|size", format!("{case}: sized as {:?} instead of {total} (fails: {})", got.map(|r| r.map_err(|e| e.to_string())).map_err(|_| "panic"), m.failed), &rep("size")); }
            cx.count("programs sized by default", 1);
            if r.bool() { SIZE.with(|s| s.set(Some(total))); }
        } else { SIZE.with(|s| s.set(Some(total))); }
        let bigger = r.us(20);
        for how in ["vec", "vec (mutable ctx)", "buffer", "buffer (mutable ctx)", "stream", "own", "file"] {
            if how == "file" && (cfg!(miri) || !r.one_in(6)) { continue; }
            let mut left = None;
            let mut delivered = None;
            let mut mem = vec![0xA5u8; total + bigger];
            let got = match how {
                "vec" => w(call(|| Program.write_to_vec_with_ctx(c()))),
                "vec (mutable ctx)" => { let mut x = c(); let r = w(call(|| Program.write_to_vec_with_ctx_mut(&mut x))); left = Some(x); r }
                "buffer" => w(call(|| Program.write_to_buffer_with_ctx(c(), &mut mem).map(|_| vec![]))),
                "buffer (mutable ctx)" => { let mut x = c(); let r = w(call(|| Program.write_to_buffer_with_ctx_mut(&mut x, &mut mem).map(|_| vec![]))); left = Some(x); r }
                "stream" => { let mut s = SimWrite::new(Plan::random(&mut r)); let x = w(call(|| Program.write_to_stream_with_ctx(c(), &mut s).map(|_| vec![]))); delivered = Some(s.out); x }
                "own" => { let mut o = OwnWriter { out: vec![], room: usize::MAX, ctx: c() }; let x = w(call(|| Program.write_to(&mut o).map(|_| vec![]))); delivered = Some(o.out); x }
                _ => { let x = w(call(|| Program.write_to_file_with_ctx(c(), &path).map(|_| vec![]))); if matches!(x, Ok(Ok(_))) { delivered = Some(std::fs::read(&path).unwrap()); } x }
            };
            let got = match got { Ok(Ok(v)) => Ok(Ok(if let Some(d) = &delivered { d.clone() } else if how.starts_with("buffer") { mem[..total].to_vec() } else { v })), x => x };
            let ok = match &got { Ok(Ok(b)) => !m.failed && *b == m.out, Ok(Err(e)) => m.failed && e.to_string().contains("my failure"), Err(_) => false };
            if !ok { cx.viol(format!("C26|script|{how}"), format!("{case}: {how} gives {} instead of {}{}", show(&got), hex(&m.out), if m.failed { " and my failure" } else { "" }), &rep(how)); continue; }
            if mem[total..].iter().any(|&x| x != 0xA5) { cx.viol(format!("C26|script|{how}|behind"), format!("{case}: {how} changes bytes behind the value"), &rep(how)); }
            if m.failed && how != "file" { if let Some(d) = &delivered { if *d != m.out { cx.viol(format!("C26|script|{how}|before"), format!("{case}: {how} was given {} before the failure instead of {}", hex(d), hex(&m.out)), &rep(how)); } } }
            let ran = !(m.failed && SIZE.with(|s| s.get()).is_none() && (how.starts_with("vec") || how.starts_with("buffer")));
            if !ran { continue; }
            let can = ANSWERS.with(|a| a.borrow().clone());
            let mut at = m.can.iter();
            let want: Vec<Option<bool>> = ops.iter().filter_map(|o| if let WOp::Can(n) = o { at.next().map(|&p| if how.starts_with("vec") || how.starts_with("buffer") { Some(total - p >= *n) } else { None }) } else { None }).collect();
            if can != want { cx.viol(format!("C26|script|{how}|can_write_at_least"), format!("{case}: {how}: can_write_at_least answers {can:?} instead of {want:?}"), &rep(how)); }
            if SIZE.with(|s| s.get()).is_some() {
                let asked = ASKED.with(|a| a.borrow().clone());
                let end = FINAL.with(|f| f.take());
                if asked != m.asked || end.as_ref() != Some(&m.ctx) { cx.viol(format!("C26|script|{how}|context"), format!("{case}: {how}: the context ends as {end:?} instead of {:?}, byte orders asked {asked:?}", m.ctx), &rep(how)); }
                if let Some(x) = left { if x != m.ctx { cx.viol(format!("C26|script|{how}|caller's context"), format!("{case}: {how}: the caller's context is left as {x:?} instead of {:?}", m.ctx), &rep(how)); } }
            }
            cx.count(&format!("programs written to {how}"), 1);
        }
        if !m.failed { wrong_size(cx, &mut r, &m, be, &case, &rep("wrong size")); }
        cx.count("writer operations compared", ops.len() as u64);
        cx.eval(hash_bytes(26, case.as_bytes()), total > 0);
        cx.sample(|| format!("{case} -> {} bytes", total));
    }
    about_to("", &[]);
    let _ = std::fs::remove_file(&path);
}

/// What is written does not depend on a bytes_needed which says too much; one which says too little is an error.
fn wrong_size(cx: &mut Cx, r: &mut Rng, m: &Plain, be: bool, case: &str, rep: &[(&str, String)]) {
    let total = m.out.len();
    let said = if r.bool() { total + 1 + r.us(40) } else if total > 0 { total - 1 - r.us(total.min(20)) } else { return };
    SIZE.with(|s| s.set(Some(said)));
    let c = || WCtx { be, touched: 0 };
    let mut mem = vec![0xA5u8; said + r.us(20)];
    let fits = call(|| Program.write_to_buffer_with_ctx(c(), &mut mem).map_err(|e| e.to_string()));
    let good = match &fits { Ok(Ok(())) => said >= total && mem[..total] == m.out[..] && mem[total..].iter().all(|&x| x == 0xA5), Ok(Err(_)) => said < total && mem[said..].iter().all(|&x| x == 0xA5), Err(_) => false };
    if !good { cx.viol("C26|script|wrong size|buffer", format!("{case}: with a bytes_needed of {said} instead of {total}, a buffer gets {} ({})", hex(&mem), match fits { Ok(r) => format!("{r:?}"), Err(_) => "panic".into() }), rep); }
    if said < total || !cfg!(debug_assertions) {
        // with debug assertions a vector of another length than promised is a panic on purpose
        let got = call(|| Program.write_to_vec_with_ctx(c()));
        let good = match &got { Ok(Ok(v)) => said >= total && *v == m.out, Ok(Err(_)) => said < total, Err(_) => false };
        if !good { cx.viol("C26|script|wrong size|vec", format!("{case}: with a bytes_needed of {said} instead of {total}, the vector is {}", match got { Ok(Ok(v)) => format!("{} bytes, {}", v.len(), hex(&v)), Ok(Err(e)) => e.to_string(), Err(_) => "a panic".into() }), rep); }
        cx.count("vectors written with a wrong bytes_needed", 1);
    }
    cx.count("buffers written with a wrong bytes_needed", 1);
}

// ---- byte order
fn byte_order(cx: &mut Cx) {
    for k in 0..(2000 * cx.a.work / 100).max(20) {
        let mut r = cx.rng(&[2626, k]);
        let e = if r.bool() { Endianness::BigEndian } else { Endianness::LittleEndian };
        let be = e == Endianness::BigEndian;
        let n = match r.below(4) { 0 => 0, 1 => 1, 2 => r.us(9), _ => r.us(70) };
        let native_be = cfg!(target_endian = "big");
        if e.conversion_necessary() != (be != native_be) || (e == Endianness::NATIVE) != (be == native_be) { cx.viol("C26|order|conversion_necessary", format!("{e:?}.conversion_necessary() is {}", e.conversion_necessary()), &[]); }
        let raw: Vec<u8> = (0..16 * (n + 1)).map(|_| if r.one_in(6) { *r.pick(&[0u8, 0x7F, 0x80, 0xFF]) } else { r.u64() as u8 }).collect();
        macro_rules! one { ($t:ty, $read:ident, $swap:ident, $slice:ident) => {{
            const N: usize = std::mem::size_of::<$t>();
            let of = |i: usize| <$t>::from_ne_bytes(raw[N * i..N * i + N].try_into().unwrap());
            let want = |i: usize| { let mut b: [u8; N] = raw[N * i..N * i + N].try_into().unwrap(); if be != native_be { b.reverse() } b };
            let p = Placed::new(&raw[..N], r.us(16));
            let got = call(|| e.$read(&p)).ok().map(|v| v.to_ne_bytes());
            if got != Some(want(0)) { cx.viol(concat!("C26|order|", stringify!($read)), format!("{e:?}.{}({}) gives {:?}", stringify!($read), hex(&p), got.map(|g| hex(&g))), &[("data", hexfull(&p))]); }
            let mut v = of(0);
            let ok = call(|| e.$swap(&mut v)).is_ok();
            if !ok || v.to_ne_bytes() != want(0) { cx.viol(concat!("C26|order|", stringify!($swap)), format!("{e:?}.{} of {} gives {}", stringify!($swap), hex(&raw[..N]), hex(&v.to_ne_bytes())), &[("data", hexfull(&raw[..N]))]); }
            one!(@ $t, $slice, of, want, N);
        }};
        (@ $t:ty, $slice:ident, $of:ident, $want:ident, $n:ident) => {
            let mut v: Vec<$t> = (0..n).map(|i| $of(i)).collect();
            let ok = call(|| e.$slice(&mut v)).is_ok();
            if !ok || (0..n).any(|i| v[i].to_ne_bytes() != $want(i)) { cx.viol(concat!("C26|order|", stringify!($slice)), format!("{e:?}.{} of {} elements {} goes wrong", stringify!($slice), n, hex(&raw[..$n * n])), &[("data", hexfull(&raw[..$n * n]))]); }
            cx.count("byte orders converted", 1);
        } }
        one!(u16, read_u16, swap_u16, swap_slice_u16);
        one!(u32, read_u32, swap_u32, swap_slice_u32);
        one!(u64, read_u64, swap_u64, swap_slice_u64);
        one!(u128, read_u128, swap_u128, swap_slice_u128);
        one!(i16, read_i16, swap_i16, swap_slice_i16);
        one!(i32, read_i32, swap_i32, swap_slice_i32);
        one!(i64, read_i64, swap_i64, swap_slice_i64);
        one!(i128, read_i128, swap_i128, swap_slice_i128);
        one!(f32, read_f32, swap_f32, swap_slice_f32);
        one!(f64, read_f64, swap_f64, swap_slice_f64);
        { const N: usize = 1; let of = |i: usize| raw[i]; let want = |i: usize| [raw[i]]; one!(@ u8, swap_slice_u8, of, want, N); }
        { const N: usize = 1; let of = |i: usize| raw[i] as i8; let want = |i: usize| [raw[i]]; one!(@ i8, swap_slice_i8, of, want, N); }
        // what does not have the right size is refused
        let odd = r.us(17);
        macro_rules! wrong { ($($t:ty, $read:ident);*) => { $( if odd != std::mem::size_of::<$t>() && call(|| e.$read(&raw[..odd.min(raw.len())])).is_ok() { cx.viol(concat!("C26|order|size|", stringify!($read)), format!("{e:?}.{} of {odd} bytes gives a value", stringify!($read)), &[]); } )* } }
        if k % 16 == 0 { wrong!(u16, read_u16; u32, read_u32; u64, read_u64; u128, read_u128; i16, read_i16; i32, read_i32; i64, read_i64; i128, read_i128; f32, read_f32; f64, read_f64); }
        cx.eval(hash_bytes(27 + be as u64, &raw), n > 0);
    }
}

//! C13: the variable-length integers.
use crate::cx::*;
use crate::model::{varint, DErr, Dec};
use crate::ops::*;
use crate::sut::*;
use speedy::private::VarInt64;
use speedy::{BigEndian, Context, Endianness, LittleEndian, Readable, Reader, Writable, Writer};
use std::io::Read;

#[derive(Readable, Writable, PartialEq, Debug)]
struct Field { #[speedy(varint)] v: u64 }
#[derive(Readable, Writable, PartialEq, Debug)]
struct Mixed { a: u16, #[speedy(varint)] v: u64, #[speedy(varint)] w: u64, b: u32 }
#[derive(Readable, Writable, PartialEq, Debug)]
enum InEnum { A(#[speedy(varint)] u64), B { x: u8, #[speedy(varint)] v: u64 } }
/// Through the writer's and reader's own methods.
#[derive(PartialEq, Debug)]
struct Direct(u64);
impl<C: Context> Writable<C> for Direct { fn write_to<T: ?Sized + Writer<C>>(&self, w: &mut T) -> Result<(), C::Error> { w.write_u64_varint(self.0) } }
impl<'a, C: Context> Readable<'a, C> for Direct {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let (a, b) = (r.peek_u64_varint(), r.peek_u64_varint());
        let v = r.read_u64_varint()?;
        match (a, b) { (Ok(a), Ok(b)) if a == v && b == v => Ok(Direct(v)), (a, b) => in_harness(|| panic!("peeked {:?} and {:?} but read {v}", a.ok(), b.ok())) }
    }
}

fn write_all<C: HCtx, T: Writable<C> + std::fmt::Debug>(cx: &mut Cx, be: bool, what: &str, t: &T, want: &[u8]) {
    let r = call(|| {
        let mut bufs = vec![];
        bufs.push(("vec", t.write_to_vec_with_ctx(C::mk(be)).map_err(|_| ())));
        let mut b = vec![0xA5; want.len()];
        bufs.push(("buffer", t.write_to_buffer_with_ctx(C::mk(be), &mut b).map(|_| b).map_err(|_| ())));
        let mut b = vec![0xA5; want.len() + 3];
        bufs.push(("larger buffer", t.write_to_buffer_with_ctx(C::mk(be), &mut b).map(|_| b[..want.len()].to_vec()).map_err(|_| ())));
        let mut b = vec![];
        bufs.push(("stream", t.write_to_stream_with_ctx(C::mk(be), &mut b).map(|_| b).map_err(|_| ())));
        (bufs, Writable::<C>::bytes_needed(t).ok())
    });
    match r {
        Ok((bufs, n)) => {
            for (k, g) in bufs { if g.as_deref() != Ok(want) { cx.viol(format!("C13|write|{what}"), format!("{what} {t:?} ({} be={be}) is written to a {k} as {:?} instead of {}", C::NAME, g.map(|g| hex(&g)), hex(want)), &[]); } }
            if n != Some(want.len()) { cx.viol(format!("C13|size|{what}"), format!("{what} {t:?} ({}) claims to need {n:?} bytes instead of {}", C::NAME, want.len()), &[]); }
            cx.count("values written", 5);
        }
        Err(Caught::Panic(m)) => cx.viol(format!("C13|panic|{what}"), format!("writing {what} {t:?} ({}) panics: {m}", C::NAME), &[]),
        Err(_) => {}
    }
}
/// Reads through every kind of reader; `want` is the value and its size, or none for too short.
fn read_all<C: HCtx, T: for<'a> Readable<'a, C> + std::fmt::Debug + PartialEq>(cx: &mut Cx, be: bool, what: &str, d: &[u8], want: Option<(T, usize)>) {
    let case = format!("{what} {} be={be}", C::NAME);
    about_to(&case, d);
    let chunk = 1 + (d.len() * 7) % 4;
    let r = call(|| {
        let mut v: Vec<(&str, Result<T, bool>, Option<usize>)> = vec![];
        let (a, n) = T::read_with_length_from_buffer_with_ctx(C::mk(be), d); v.push(("buffer", a.map_err(|e| e.is_eof()), Some(n)));
        let (a, n) = T::read_with_length_from_buffer_copying_data_with_ctx(C::mk(be), d); v.push(("copied buffer", a.map_err(|e| e.is_eof()), Some(n)));
        for c in [0, 1, chunk] {
            let mut s = SimRead::new(d, Plan { chunk: c, interrupt: 3, seed: d.len() as u64, fault: None, times: 20_000 });
            let a = T::read_from_stream_unbuffered_with_ctx(C::mk(be), &mut s);
            let n = s.pos;
            v.push(("unbuffered stream", a.map_err(|e| e.is_eof()), Some(n)));
            let s = SimRead::new(d, Plan { chunk: c, interrupt: 3, seed: d.len() as u64, fault: None, times: 20_000 });
            v.push(("buffered stream", T::read_from_stream_buffered_with_ctx(C::mk(be), s).map_err(|e| e.is_eof()), None));
            let mut rest = vec![];
            let s = SimRead::new(d, Plan { chunk: c, interrupt: 0, seed: 1, fault: None, times: 20_000 }).chain(&b""[..]).read_to_end(&mut rest);
            let _ = s;
        }
        v
    });
    match r {
        Ok(v) => for (k, got, n) in v {
            cx.count("reads", 1);
            match (&got, &want) {
                (Ok(g), Some((w, used))) => {
                    if g != w { cx.viol(format!("C13|value|{what}"), format!("{what} {} read from a {k} is {g:?}, not {w:?}", hex(d), ), &[("data", hexfull(d))]); }
                    if n.map_or(false, |n| n != *used) { cx.viol(format!("C13|length|{what}"), format!("{what} {} read from a {k} takes {n:?} bytes, not {used}", hex(d)), &[("data", hexfull(d))]); }
                }
                (Err(_), None) => {}
                _ => cx.viol(format!("C13|verdict|{what}"), format!("{what} {} ({case}) read from a {k} gives {got:?}, not {want:?}", hex(d)), &[("data", hexfull(d))]),
            }
        },
        Err(Caught::Panic(m)) => cx.viol(format!("C13|panic|{what}"), format!("reading {what} {} ({case}) panics: {m}", hex(d)), &[("data", hexfull(d))]),
        Err(_) => {}
    }
}
use speedy::IsEof;

fn value<C: HCtx>(cx: &mut Cx, be: bool, v: u64) where Field: Writable<C> + for<'a> Readable<'a, C>, Mixed: Writable<C> + for<'a> Readable<'a, C>, InEnum: Writable<C> + for<'a> Readable<'a, C> {
    let e = varint(v);
    let n16 = |x: u16| if be { x.to_be_bytes() } else { x.to_le_bytes() };
    let n32 = |x: u32| if be { x.to_be_bytes() } else { x.to_le_bytes() };
    cx.count(&format!("{}-byte values", e.len()), 1);
    write_all::<C, _>(cx, be, "VarInt64", &VarInt64::from(v), &e);
    read_all::<C, _>(cx, be, "VarInt64", &e, Some((VarInt64::from(v), e.len())));
    write_all::<C, _>(cx, be, "write_u64_varint", &Direct(v), &e);
    read_all::<C, _>(cx, be, "read_u64_varint", &e, Some((Direct(v), e.len())));
    write_all::<C, _>(cx, be, "field", &Field { v }, &e);
    read_all::<C, _>(cx, be, "field", &e, Some((Field { v }, e.len())));
    let w = v.rotate_left(11) ^ 0x55;
    let m = [&n16(0x1234)[..], &e, &varint(w), &n32(0x89ABCDEF)].concat();
    write_all::<C, _>(cx, be, "mixed struct", &Mixed { a: 0x1234, v, w, b: 0x89ABCDEF }, &m);
    read_all::<C, _>(cx, be, "mixed struct", &m, Some((Mixed { a: 0x1234, v, w, b: 0x89ABCDEF }, m.len())));
    let m = [&n32(1)[..], &[9], &e].concat();
    write_all::<C, _>(cx, be, "variant", &InEnum::B { x: 9, v }, &m);
    read_all::<C, _>(cx, be, "variant", &m, Some((InEnum::B { x: 9, v }, m.len())));
    write_all::<C, _>(cx, be, "tuple variant", &InEnum::A(v), &[&n32(0)[..], &e].concat());
    let mut many = vec![];
    for k in 0..3 { many.extend_from_slice(&varint(v.wrapping_add(k))); }
    read_all::<C, _>(cx, be, "array", &many, Some(([VarInt64::from(v), VarInt64::from(v.wrapping_add(1)), VarInt64::from(v.wrapping_add(2))], many.len())));
    write_all::<C, _>(cx, be, "array", &[VarInt64::from(v), VarInt64::from(v.wrapping_add(1)), VarInt64::from(v.wrapping_add(2))], &many);
    for cut in 0..e.len() { read_all::<C, VarInt64>(cx, be, "truncated", &e[..cut], None); read_all::<C, Direct>(cx, be, "truncated read_u64_varint", &e[..cut], None); }
    cx.eval(crate::rng::hash_bytes(be as u64 * 2 + (C::NAME == "dyn") as u64, &e), true);
}
fn bytes<C: HCtx>(cx: &mut Cx, be: bool, d: &[u8]) where Field: for<'a> Readable<'a, C> {
    let mut dec = Dec::new(d, be, false);
    let want = match dec.varint() { Ok(v) => Some((v, dec.pos)), Err(DErr::Short) => None, Err(_) => return };
    read_all::<C, _>(cx, be, "VarInt64", d, want.map(|(v, n)| (VarInt64::from(v), n)));
    read_all::<C, _>(cx, be, "read_u64_varint", d, want.map(|(v, n)| (Direct(v), n)));
    read_all::<C, _>(cx, be, "field", d, want.map(|(v, n)| (Field { v }, n)));
    cx.count(if want.is_some() { "byte strings accepted" } else { "byte strings too short" }, 1);
    cx.eval(crate::rng::hash_bytes(100 + be as u64 * 2 + (C::NAME == "dyn") as u64, d), d.len() > 0);
}
fn signed(cx: &mut Cx, v: i64) {
    fn zz(v: i128) -> u64 { (if v >= 0 { 2 * v } else { -2 * v - 1 }) as u64 }
    macro_rules! one { ($t:ty) => { {
        let x = v as $t;
        match call(|| { let e = VarInt64::from(x); (u64::from(e), i64::from(e), e.write_to_vec_with_ctx(Endianness::BigEndian).ok()) }) {
            Ok((u, back, w)) => {
                if u != zz(x as i128) { cx.viol(concat!("C13|zigzag|", stringify!($t)), format!("{x} as {} is coded as {u} instead of {}", stringify!($t), zz(x as i128)), &[]); }
                if back != x as i64 { cx.viol(concat!("C13|zigzag back|", stringify!($t)), format!("{x} as {} comes back as {back}", stringify!($t)), &[]); }
                if w != Some(varint(zz(x as i128))) { cx.viol(concat!("C13|zigzag bytes|", stringify!($t)), format!("{x} as {} is written as {w:?}", stringify!($t)), &[]); }
            }
            Err(_) => cx.viol(concat!("C13|zigzag panic|", stringify!($t)), format!("{x} as {} panics", stringify!($t)), &[]),
        }
        cx.count("signed conversions", 1);
    } } }
    one!(i8); one!(i16); one!(i32); one!(i64);
    macro_rules! un { ($t:ty) => { { let x = v as $t; let u = u64::from(VarInt64::from(x)); if u != x as u64 { cx.viol(concat!("C13|unsigned|", stringify!($t)), format!("{x} becomes {u}"), &[]); } } } }
    un!(u8); un!(u16); un!(u32); un!(u64);
    // any 64-bit pattern is the code of exactly one signed value
    let back = i64::from(VarInt64::from(v as u64));
    if zz(back as i128) != v as u64 { cx.viol("C13|unzigzag", format!("{:#x} stands for {back}", v as u64), &[]); }
}
pub fn c13(cx: &mut Cx) {
    let mut vals: Vec<u64> = vec![];
    for k in 0..64u32 { for d in -3i64..=3 { vals.push((1u64 << k).wrapping_add(d as u64)); vals.push((!0u64 >> k).wrapping_sub(d as u64)); } }
    for b in 0..=255u64 { vals.push(b); vals.push(b << 8 | 0x80); vals.push(b * 0x0101_0101_0101_0101); }
    for k in (0..64).step_by(8) { for b in [1u64, 0x7F, 0x80, 0xFF] { vals.push(b << k); vals.push(!(b << k)); } }
    let mut r = cx.rng(&[1]);
    let n = (40 * cx.a.work / 100).max(2);
    for bits in 1..=64 { for _ in 0..n { vals.push(r.u64() >> (64 - bits) | 1 << (bits - 1)); } }
    vals.sort(); vals.dedup();
    for (i, v) in vals.iter().enumerate() {
        if !cx.mine(i) { continue; }
        if cx.late() { break; }
        value::<Endianness>(cx, true, *v);
        value::<Endianness>(cx, false, *v);
        value::<LittleEndian>(cx, false, *v);
        value::<BigEndian>(cx, true, *v);
        signed(cx, *v as i64);
        signed(cx, (*v as i64).wrapping_neg());
        cx.sample(|| format!("{v:#x} = {}", hex(&varint(*v))));
    }
    // every string of up to two bytes, every first byte with every possible amount of what follows
    let mut idx = 0;
    let mut strings: Vec<Vec<u8>> = vec![vec![]];
    for a in 0..=255u8 { strings.push(vec![a]); for b in 0..=255u8 { if cx.a.work >= 100 || b % 16 == a % 16 { strings.push(vec![a, b]); } } }
    for a in 0..=255u8 { for n in 2..=11 { let mut s = vec![a]; for _ in 0..n { s.push(*r.pick(&[0, 1, 0x7F, 0x80, 0xFF, r.clone().u64() as u8])); r.u64(); } strings.push(s); } }
    for _ in 0..n * 100 { let k = r.us(12); let mut s: Vec<u8> = (0..k).map(|_| r.u64() as u8).collect(); if k > 0 && r.bool() { s[0] |= 0xFFu8 << r.below(9).min(7); } strings.push(s); }
    for s in strings {
        idx += 1;
        if !cx.mine(idx) { continue; }
        if cx.late() { break; }
        bytes::<Endianness>(cx, idx % 16 < 8, &s);
        if idx % 5 == 0 { bytes::<LittleEndian>(cx, false, &s); }
    }
}

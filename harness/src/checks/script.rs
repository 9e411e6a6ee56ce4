//! C12, C19, C20: random operation sequences run inside `read_from` on every kind of reader, against a cursor over the data.
use crate::cx::*;
use crate::model::*;
use crate::ops::*;
use crate::rng::*;
use crate::sut::*;
use speedy::{Context, Endianness, Error, IsEof, Readable, Reader, Writable};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

/// A context whose byte order changes while reading.
#[derive(Clone, Debug, PartialEq)]
pub struct SCtx { pub be: bool, pub touched: u64 }
impl Context for SCtx { type Error = Error; fn endianness(&self) -> Endianness { if self.be { Endianness::BigEndian } else { Endianness::LittleEndian } } }

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Read(u8), Peek(u8), Bytes(usize), PeekBytes(usize), Into(usize), PeekInto(usize), Skip(usize), Can(usize), Varint, PeekVarint, Borrow(usize), BorrowR(usize), BorrowEof, Endian(bool), AskEndian, Value(u8), Vect(u8, usize), Cow(u8, usize), Coll(u8, usize), Kv(u8, usize), Str(usize), VecEof(u8), CowEof(u8), CollEof(u8) }
#[derive(Clone, Debug, PartialEq)]
pub enum Got { Val(Vec<u8>), Maybe(Option<bool>), NotOffered, Err { eof: bool, io: Option<std::io::ErrorKind> }, Invalid(&'static str) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Buffer, Copying, CopyingMut, Unbuffered, Buffered, File, Custom }
pub const KINDS: [Kind; 7] = [Kind::Buffer, Kind::Copying, Kind::CopyingMut, Kind::Unbuffered, Kind::Buffered, Kind::File, Kind::Custom];
impl Kind {
    fn borrows(self) -> bool { self == Kind::Buffer }
    fn bounded(self) -> bool { !matches!(self, Kind::Unbuffered | Kind::Buffered | Kind::Custom) }
}

// ---- enums which look at their tag without taking it
macro_rules! peek_enum { ($name:ident, $t:ident, $(#[$a:meta])* $n:literal) => {
    #[derive(Readable, Writable, PartialEq, Debug, Clone)]
    #[speedy(peek_tag)]
    #[speedy(tag_type = $t)]
    pub enum $name { #[speedy(tag = 0)] A { tag: $t, x: u8 }, #[speedy(tag = 1)] B { tag: $t, v: Vec<u16> }, #[speedy(tag = 100)] C($t), #[speedy(tag = 7)] D([u8; $n]) }
    impl View for $name { fn enc(&self, e: &mut Enc) { match self {
        $name::A { tag, x } => { e.num(tag.to_le_bytes()); e.u8(*x) }
        $name::B { tag, v } => { e.num(tag.to_le_bytes()); v.enc(e) }
        $name::C(t) => e.num(t.to_le_bytes()),
        $name::D(b) => e.raw(b),
    } } }
    impl<'a> Model<'a> for $name {
        fn gen(g: &mut Gen<'a>) -> Self { match g.rng.below(4) { 0 => $name::A { tag: 0, x: g.rng.u64() as u8 }, 1 => $name::B { tag: 1, v: Vec::gen(g) }, 2 => $name::C(100), _ => { let mut b = [0; $n]; b[0] = 7; $name::D(b) } } }
        fn dec(d: &mut Dec, e: &mut Enc) -> DRes {
            let at = d.pos;
            let tag = <$t>::from_le_bytes(d.num()?);
            d.pos = at;
            match tag {
                0 => { <$t>::dec(d, e)?; <u8>::dec(d, e) }
                1 => { <$t>::dec(d, e)?; Vec::<u16>::dec(d, e) }
                100 => <$t>::dec(d, e),
                7 => <[u8; $n]>::dec(d, e),
                _ => Err(DErr::Invalid("tag")),
            }
        }
        fn shape() -> Shape { Shape::fixed($n).var().fails() }
    }
} }
peek_enum!(P8, u8, 1);
peek_enum!(P16, u16, 2);
peek_enum!(P32, u32, 4);
peek_enum!(P64, u64, 8);
#[derive(Readable, Writable, PartialEq, Debug, Clone)]
#[speedy(tag_type = u64_varint)]
#[speedy(peek_tag)]
pub enum PV { #[speedy(tag = 3)] A { #[speedy(varint)] tag: u64, x: u16 }, #[speedy(tag = 200)] B { #[speedy(varint)] tag: u64 }, #[speedy(tag = 70000)] C { #[speedy(varint)] tag: u64, s: String } }
impl View for PV { fn enc(&self, e: &mut Enc) {
    let t = |e: &mut Enc, v: u64| if e.canon { e.num(v.to_le_bytes()) } else { e.raw(&varint(v)) };
    match self { PV::A { tag, x } => { t(e, *tag); x.enc(e) } PV::B { tag } => t(e, *tag), PV::C { tag, s } => { t(e, *tag); s.enc(e) } }
} }
impl<'a> Model<'a> for PV {
    fn gen(g: &mut Gen<'a>) -> Self { match g.rng.below(3) { 0 => PV::A { tag: 3, x: g.rng.u64() as u16 }, 1 => PV::B { tag: 200 }, _ => PV::C { tag: 70000, s: String::gen(g) } } }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes {
        let tag = d.varint()?;
        e.num(tag.to_le_bytes());
        match tag { 3 => u16::dec(d, e), 200 => Ok(()), 70000 => String::dec(d, e), _ => Err(DErr::Invalid("tag")) }
    }
    fn shape() -> Shape { Shape::fixed(1).var().fails() }
}
/// A record with a constant in front, a switch of byte order behind it, and the rest.
#[derive(Readable, Writable, PartialEq, Debug, Clone)]
pub struct Rec { #[speedy(constant_prefix = "R:")] a: u16, #[speedy(length_type = u16)] b: Vec<u32>, c: Option<u64>, d: (i16, f32) }
impl View for Rec { fn enc(&self, e: &mut Enc) { if !e.canon { e.raw(b"R:") } self.a.enc(e); enc_with(&self.b, e, LK::U16); self.c.enc(e); self.d.enc(e) } }
impl<'a> Model<'a> for Rec {
    fn gen(g: &mut Gen<'a>) -> Self { Rec { a: u16::gen(g), b: gen_with(g, 300), c: Option::gen(g), d: Model::gen(g) } }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes { d.constant(b"R:")?; u16::dec(d, e)?; dec_with::<Vec<u32>>(d, e, LK::U16)?; Option::<u64>::dec(d, e)?; <(i16, f32)>::dec(d, e) }
    fn shape() -> Shape { Shape::fixed(13).var().fails() }
}

/// Runs `$f::<T>` for the type numbered `$i`.
#[macro_export]
macro_rules! elems { ($i:expr, $T:ident => $e:expr) => { match $i {
    0 => { type $T<'x> = u8; $e } 1 => { type $T<'x> = i8; $e } 2 => { type $T<'x> = u16; $e } 3 => { type $T<'x> = u32; $e } 4 => { type $T<'x> = u64; $e }
    5 => { type $T<'x> = f32; $e } 6 => { type $T<'x> = f64; $e } 7 => { type $T<'x> = bool; $e } 8 => { type $T<'x> = [u16; 3]; $e } 9 => { type $T<'x> = (u8, u16); $e }
    10 => { type $T<'x> = i128; $e } 11 => { type $T<'x> = i16; $e } 12 => { type $T<'x> = Option<u32>; $e } 13 => { type $T<'x> = String; $e } 14 => { type $T<'x> = char; $e }
    _ => { type $T<'x> = i64; $e }
} } }
pub const NELEMS: u8 = 16;
#[macro_export]
macro_rules! values { ($i:expr, $T:ident => $e:expr) => { match $i {
    i if i < $crate::checks::script::NELEMS => $crate::elems!(i, $T => $e),
    16 => { type $T<'x> = Vec<u16>; $e } 17 => { type $T<'x> = BTreeMap<u8, u16>; $e } 18 => { type $T<'x> = Result<u8, u32>; $e } 19 => { type $T<'x> = Cow<'x, str>; $e } 20 => { type $T<'x> = std::time::Duration; $e }
    21 => { type $T<'x> = $crate::checks::script::P8; $e } 22 => { type $T<'x> = $crate::checks::script::P16; $e } 23 => { type $T<'x> = $crate::checks::script::P32; $e } 24 => { type $T<'x> = $crate::checks::script::P64; $e } 25 => { type $T<'x> = $crate::checks::script::PV; $e } 26 => { type $T<'x> = $crate::checks::script::Rec; $e }
    27 => { type $T<'x> = Vec<$crate::checks::script::P16>; $e } 28 => { type $T<'x> = Vec<Vec<u32>>; $e } 29 => { type $T<'x> = [u64; 3]; $e } 30 => { type $T<'x> = Cow<'x, [u16]>; $e } 31 => { type $T<'x> = std::net::IpAddr; $e }
    _ => { type $T<'x> = usize; $e }
} } }
pub const NVALUES: u8 = 33;
macro_rules! kvs { ($i:expr, $K:ident, $V:ident => $e:expr) => { match $i {
    0 => { type $K = u8; type $V = i8; $e } 1 => { type $K = u8; type $V = u32; $e } 2 => { type $K = u16; type $V = u64; $e } 3 => { type $K = String; type $V = u8; $e } 4 => { type $K = bool; type $V = u8; $e }
    _ => { type $K = f64; type $V = [u16; 2]; $e }
} } }
const NKVS: u8 = 6;
/// Numbers in canonical form, by width and kind.
const WIDTHS: [usize; 12] = [1, 2, 4, 8, 16, 1, 2, 4, 8, 16, 4, 8];

fn canon<T: View>(v: &T) -> Got { let mut e = Enc::canon(); v.enc(&mut e); match e.invalid { Some(i) => Got::Invalid(i), None => Got::Val(e.out) } }
fn all<T: View>(v: &[T]) -> Got { let mut e = Enc::canon(); for x in v { x.enc(&mut e) } e.num((v.len() as u64).to_le_bytes()); match e.invalid { Some(i) => Got::Invalid(i), None => Got::Val(e.out) } }
fn res<T>(r: Result<T, Error>, f: impl FnOnce(T) -> Got) -> Got { match r { Ok(v) => f(v), Err(e) => Got::Err { eof: e.is_eof(), io: super::fault::io_kind(&e) } } }

fn exec<'a, R: Reader<'a, SCtx>>(r: &mut R, op: &Op) -> Got {
    macro_rules! nums { ($r:ident: $($i:literal $f:ident),*) => { match $r { $($i => res(r.$f(), |v| Got::Val(v.to_le_bytes().to_vec())),)* _ => unreachable!() } } }
    match *op {
        Op::Read(w) => nums!(w: 0 read_u8, 1 read_u16, 2 read_u32, 3 read_u64, 4 read_u128, 5 read_i8, 6 read_i16, 7 read_i32, 8 read_i64, 9 read_i128, 10 read_f32, 11 read_f64),
        Op::Peek(w) => nums!(w: 0 peek_u8, 1 peek_u16, 2 peek_u32, 3 peek_u64, 4 peek_u128, 5 peek_i8, 6 peek_i16, 7 peek_i32, 8 peek_i64, 9 peek_i128, 10 peek_f32, 11 peek_f64),
        Op::Bytes(n) => { let mut b = vec![0x5A; n]; res(r.read_bytes(&mut b), |_| Got::Val(b)) }
        Op::PeekBytes(n) => { let mut b = vec![0x5A; n]; res(r.peek_bytes(&mut b), |_| Got::Val(b)) }
        Op::Into(n) => { let mut b = vec![0x5A; n + 2]; res(unsafe { r.read_bytes_into_ptr(b.as_mut_ptr().add(1), n) }, |_| if b[0] != 0x5A || b[n + 1] != 0x5A { Got::Invalid("wrote outside the given memory") } else { Got::Val(b[1..n + 1].to_vec()) }) }
        Op::PeekInto(n) => { let mut b = vec![0x5A; n + 2]; res(unsafe { r.peek_bytes_into_ptr(b.as_mut_ptr().add(1), n) }, |_| if b[0] != 0x5A || b[n + 1] != 0x5A { Got::Invalid("wrote outside the given memory") } else { Got::Val(b[1..n + 1].to_vec()) }) }
        Op::Skip(n) => res(r.skip_bytes(n), |_| Got::Val(vec![])),
        Op::Can(n) => Got::Maybe(r.can_read_at_least(n)),
        Op::Varint => res(r.read_u64_varint(), |v| Got::Val(v.to_le_bytes().to_vec())),
        Op::PeekVarint => res(r.peek_u64_varint(), |v| Got::Val(v.to_le_bytes().to_vec())),
        Op::Borrow(n) => match r.read_bytes_borrowed(n) { None => Got::NotOffered, Some(x) => res(x, |b| Got::Val(b.to_vec())) },
        Op::BorrowR(n) => match r.read_bytes_borrowed_from_reader(n) { None => Got::NotOffered, Some(x) => res(x, |b| Got::Val(b.to_vec())) },
        Op::BorrowEof => match r.read_bytes_borrowed_until_eof() { None => Got::NotOffered, Some(b) => Got::Val(b.to_vec()) },
        Op::Endian(be) => { let c = r.context_mut(); c.be = be; c.touched += 1; Got::Val(r.context().touched.to_le_bytes().to_vec()) }
        Op::AskEndian => Got::Val(vec![(r.endianness() == Endianness::BigEndian) as u8, (r.context().be) as u8]),
        Op::Value(t) => values!(t, T => res(r.read_value::<T<'a>>(), |v| canon(&v))),
        Op::Vect(t, n) => elems!(t, T => res(r.read_vec::<T<'a>>(n), |v| all(&v))),
        Op::Cow(t, n) => elems!(t, T => res(r.read_cow::<T<'a>>(n), |v| all(&v))),
        Op::Coll(t, n) => elems!(t, T => res(r.read_collection::<T<'a>, Vec<_>>(n), |v| all(&v))),
        Op::Kv(t, n) => kvs!(t, K, V => res(r.read_key_value_collection::<K, V, Vec<(K, V)>>(n), |v| all(&v))),
        Op::Str(n) => res(r.read_string(n), |v| Got::Val(v.into_bytes())),
        Op::VecEof(t) => elems!(t, T => res(r.read_vec_until_eof::<T<'a>>(), |v| all(&v))),
        Op::CowEof(t) => elems!(t, T => res(r.read_cow_until_eof::<T<'a>>(), |v| all(&v))),
        Op::CollEof(t) => elems!(t, T => res(r.read_collection_until_eof::<T<'a>, Vec<_>>(), |v| all(&v))),
    }
}
/// What the operation must give, with the cursor moved; true when the script cannot go on.
struct Cursor<'d> { data: &'d [u8], pos: usize, hi: usize, be: bool, touched: u64, kind: Kind, fault: Option<std::io::ErrorKind> }
impl<'d> Cursor<'d> {
    fn short(&self) -> Got { Got::Err { eof: self.fault.is_none(), io: self.fault } }
    fn left(&self) -> usize { self.data.len() - self.pos }
    fn num(&self, w: usize) -> Vec<u8> { let mut v = self.data[self.pos..self.pos + w].to_vec(); if self.be { v.reverse() } v }
    fn raw(&mut self, n: usize) -> (Got, bool) {
        if self.left() < n { self.hi = self.data.len(); return (self.short(), true); }
        self.pos += n;
        (Got::Val(self.data[self.pos - n..self.pos].to_vec()), false)
    }
    fn peek(&mut self, n: usize) -> (Got, bool) {
        if self.left() < n { self.hi = self.data.len(); return (self.short(), false); }
        self.hi = self.hi.max(self.pos + n);
        (Got::Val(self.data[self.pos..self.pos + n].to_vec()), false)
    }
    fn dec(&mut self, f: impl FnOnce(&mut Dec, &mut Enc) -> DRes) -> (Got, bool) {
        let mut d = Dec::new(self.data, self.be, self.kind.borrows());
        d.pos = self.pos;
        let mut e = Enc::canon();
        match f(&mut d, &mut e) {
            Ok(()) => { self.pos = d.pos; (Got::Val(e.out), false) }
            Err(x) => { self.hi = self.data.len(); (if x == DErr::Short { self.short() } else { Got::Err { eof: false, io: None } }, true) }
        }
    }
    fn step(&mut self, op: &Op) -> (Got, bool) {
        fn many<'a, T: Model<'a>>(n: usize) -> impl FnOnce(&mut Dec, &mut Enc) -> DRes { move |d, e| { for _ in 0..n { T::dec(d, e)?; } e.num((n as u64).to_le_bytes()); Ok(()) } }
        fn to_end<'a, T: Model<'a>>() -> impl FnOnce(&mut Dec, &mut Enc) -> DRes { move |d, e| { let mut n = 0u64; loop { let mark = e.out.len(); match T::dec(d, e) { Ok(()) => n += 1, Err(DErr::Short) => { e.out.truncate(mark); break } Err(x) => return Err(x) } } d.pos = d.data.len(); e.num(n.to_le_bytes()); Ok(()) } }
        match *op {
            Op::Read(w) => { let n = WIDTHS[w as usize]; let v = if self.left() >= n { Some(self.num(n)) } else { None }; let (g, s) = self.raw(n); (v.map(Got::Val).unwrap_or(g), s) }
            Op::Peek(w) => { let n = WIDTHS[w as usize]; let v = if self.left() >= n { Some(self.num(n)) } else { None }; let (g, s) = self.peek(n); (v.map(Got::Val).unwrap_or(g), s) }
            Op::Bytes(n) | Op::Into(n) => self.raw(n),
            Op::PeekBytes(n) | Op::PeekInto(n) => self.peek(n),
            Op::Skip(n) => { let (g, s) = self.raw(n); (if let Got::Val(_) = g { Got::Val(vec![]) } else { g }, s) }
            Op::Can(n) => (Got::Maybe(if self.kind.bounded() { Some(self.left() >= n) } else { None }), false),
            Op::Varint => self.dec(|d, e| { let v = d.varint()?; e.num(v.to_le_bytes()); Ok(()) }),
            Op::PeekVarint => { let at = self.pos; let (g, _) = self.dec(|d, e| { let v = d.varint()?; e.num(v.to_le_bytes()); Ok(()) }); self.hi = self.hi.max(self.pos); self.pos = at; (g, false) }
            Op::Borrow(n) => if self.kind.borrows() { self.raw(n) } else { (Got::NotOffered, false) },
            Op::BorrowR(n) => if self.kind.bounded() { self.raw(n) } else { (Got::NotOffered, false) },
            Op::BorrowEof => if self.kind.borrows() { let n = self.left(); self.raw(n) } else { (Got::NotOffered, false) },
            Op::Endian(be) => { self.be = be; self.touched += 1; (Got::Val(self.touched.to_le_bytes().to_vec()), false) }
            Op::AskEndian => (Got::Val(vec![self.be as u8; 2]), false),
            Op::Value(t) => values!(t, T => self.dec(<T<'_>>::dec)),
            Op::Vect(t, n) | Op::Cow(t, n) | Op::Coll(t, n) => elems!(t, T => self.dec(many::<T<'_>>(n))),
            Op::Kv(t, n) => kvs!(t, K, V => self.dec(many::<(K, V)>(n))),
            Op::Str(n) => self.dec(|d, e| { let b = d.take(n)?; if std::str::from_utf8(b).is_err() { return Err(DErr::Invalid("utf-8")); } e.raw(b); Ok(()) }),
            Op::VecEof(t) | Op::CowEof(t) | Op::CollEof(t) => {
                let (g, _) = elems!(t, T => self.dec(to_end::<T<'_>>()));
                // the stream broke before its end showed; an invalid element met before that is reported first
                if self.fault.is_some() && matches!(g, Got::Val(_)) { self.pos = self.data.len(); return (self.short(), true); }
                (g, true)
            }
        }
    }
}

#[derive(Clone, Debug)]
struct Entry { got: Got, stream: usize }
thread_local! {
    static OPS: RefCell<Vec<Op>> = RefCell::new(vec![]);
    static LOG: RefCell<Vec<Entry>> = RefCell::new(vec![]);
    static STREAM: Cell<usize> = Cell::new(0);
    static FINAL: RefCell<Option<SCtx>> = RefCell::new(None);
}
struct Scripted;
impl<'a> Readable<'a, SCtx> for Scripted {
    fn read_from<R: Reader<'a, SCtx>>(r: &mut R) -> Result<Self, Error> {
        let ops = OPS.with(|o| o.take());
        let mut log = Vec::with_capacity(ops.len());
        for op in &ops {
            let got = exec(r, op);
            let stop = matches!(got, Got::Err { .. } | Got::Invalid(_)) && !matches!(op, Op::Peek(_) | Op::PeekBytes(_) | Op::PeekInto(_) | Op::PeekVarint);
            log.push(Entry { got, stream: STREAM.with(|s| s.get()) });
            if stop { break; }
        }
        LOG.with(|l| l.replace(log));
        FINAL.with(|f| f.replace(Some(r.context().clone())));
        OPS.with(|o| o.replace(ops));
        Ok(Scripted)
    }
}
struct Watched<'d>(SimRead<'d>);
impl<'d> std::io::Read for Watched<'d> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let r = self.0.read(b); STREAM.with(|s| s.set(self.0.pos)); r } }

fn run(kind: Kind, ops: &[Op], data: &[u8], be: bool, plan: &Plan, path: &std::path::Path) -> Result<(Vec<Entry>, Option<SCtx>, Option<SCtx>, Option<usize>), String> {
    OPS.with(|o| o.replace(ops.to_vec()));
    LOG.with(|l| l.borrow_mut().clear());
    STREAM.with(|s| s.set(0));
    FINAL.with(|f| f.replace(None));
    let c = SCtx { be, touched: 0 };
    let mut caller = None;
    let mut used = None;
    let r = call(|| match kind {
        Kind::Buffer => { let (r, n) = Scripted::read_with_length_from_buffer_with_ctx(c, data); used = Some(n); r.map(|_| ()) }
        Kind::Copying => Scripted::read_from_buffer_copying_data_with_ctx(c, data).map(|_| ()),
        Kind::CopyingMut => { let mut c = c; let (r, n) = Scripted::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut c, data); caller = Some(c); used = Some(n); r.map(|_| ()) }
        Kind::Unbuffered => Scripted::read_from_stream_unbuffered_with_ctx(c, Watched(SimRead::new(data, plan.clone()))).map(|_| ()),
        Kind::Buffered => Scripted::read_from_stream_buffered_with_ctx(c, Watched(SimRead::new(data, plan.clone()))).map(|_| ()),
        Kind::File => Scripted::read_from_file_with_ctx(c, path).map(|_| ()),
        Kind::Custom => Scripted::read_from(&mut OwnReader { data, pos: 0, ctx: c }).map(|_| ()),
    });
    match r {
        Ok(Ok(())) => Ok((LOG.with(|l| l.take()), FINAL.with(|f| f.take()), caller, used)),
        Ok(Err(e)) => Err(format!("fails: {e}")),
        Err(Caught::Panic(m)) => Err(format!("panics: {m}")),
        Err(Caught::Planned) => Err("?".into()),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Style { Peeks, Streams, Contexts, Faults }
fn size(r: &mut Rng, style: Style) -> usize {
    match r.below(if style == Style::Streams { 24 } else { 14 }) {
        0 => 0, 1..=5 => r.us(10), 6..=8 => r.us(40), 9 => *r.pick(&[1, 2, 4, 8, 9, 15, 16, 17]), 10 => r.us(300), 11 => *r.pick(&[1023, 1024, 1025, 2047, 2048, 2049]),
        12 if style != Style::Contexts => *r.pick(&[4095, 4096, 4097, 8184, 8190, 8191, 8192, 8193, 8200]),
        13 => r.us(1100),
        14 | 15 => 8192 - r.us(20), 16 => 8192 + r.us(40), 17 => 16384 - 6 + r.us(12), 18 => r.us(20000), 19 | 20 => r.us(5000), 21 => 4000 + r.us(300), _ => r.us(12),
    }
}
/// A script, and data on which much of it succeeds.
fn make(r: &mut Rng, style: Style, be0: bool) -> (Vec<Op>, Vec<u8>) {
    let mut be = be0;
    let mut data: Vec<u8> = vec![];
    let mut cur = 0usize;
    let mut ops = vec![];
    let cap = match style { Style::Streams => if r.one_in(12) { 400_000 } else { 60_000 }, Style::Peeks => 30_000, Style::Contexts => 6_000, Style::Faults => 20_000 };
    let n = 1 + match r.below(4) { 0 => r.us(4), 1 => r.us(12), _ => r.us(40) };
    for _ in 0..n {
        let fill = |r: &mut Rng, data: &mut Vec<u8>, to: usize| {
            if to > data.len() + 400 { let mut x = r.u64(); while data.len() < to { x = mix(x); data.extend_from_slice(&x.to_le_bytes()); } data.truncate(to); }
            while data.len() < to { data.push(r.u64() as u8) }
        };
        let left = cap - cur.min(cap);
        // block reads far beyond what streams are trusted with in advance
        let sz = if cap > 100_000 && r.one_in(4) { *r.pick(&[65535, 65536, 65537, 131071, 131073, 200_000]) + r.us(3) } else { size(r, style) }.min(left);
        let k = match style { Style::Peeks => r.below(13), Style::Streams => r.below(16), Style::Faults => r.below(21), Style::Contexts => 5 + r.below(16) };
        let op = match k {
            0 | 1 => Op::Peek(r.below(12) as u8),
            2 => Op::PeekBytes(sz),
            3 => if r.bool() { Op::PeekVarint } else { Op::PeekInto(sz) },
            4 => Op::Bytes(sz),
            5 => Op::Read(r.below(12) as u8),
            6 => match r.below(4) { 0 => Op::Varint, 1 => Op::Skip(sz), 2 => Op::Into(sz), _ => Op::Peek(r.below(12) as u8) },
            7 => match r.below(6) { 0 => Op::Can(sz), 1 => Op::Borrow(sz), 2 => Op::BorrowR(sz), 3 => Op::AskEndian, 4 => Op::Endian(r.bool()), _ => Op::PeekInto(sz) },
            8 | 9 => Op::Value(if style == Style::Peeks { if r.bool() { 21 + r.below(7) as u8 } else { r.below(NVALUES as u64) as u8 } } else { r.below(NVALUES as u64) as u8 }),
            10 => Op::Peek(r.below(12) as u8),
            11 => Op::PeekBytes(r.us(20)),
            12 => if r.bool() { Op::Skip(sz) } else { Op::Bytes(sz) },
            13 => Op::Bytes(sz),
            14 => { let t = r.below(NELEMS as u64) as u8; let n = if t < 2 { sz } else { sz / 6 }; match r.below(3) { 0 => Op::Vect(t, n), 1 => Op::Cow(t, n), _ => Op::Coll(t, n) } }
            15 => match r.below(3) { 0 => Op::Kv(r.below(NKVS as u64) as u8, sz / 9), 1 => Op::Str(sz), _ => Op::PeekBytes(sz) },
            16 | 17 => Op::Endian(r.bool()),
            18 => Op::Value(r.below(NVALUES as u64) as u8),
            19 => { let t = r.below(NELEMS as u64) as u8; let n = r.us(12); match r.below(3) { 0 => Op::Vect(t, n), 1 => Op::Cow(t, n), _ => Op::Coll(t, n) } }
            _ => Op::Kv(r.below(NKVS as u64) as u8, r.us(9)),
        };
        // make the data last, and mean something where it has to
        let need = |data: &mut Vec<u8>, r: &mut Rng, cur: &mut usize, n: usize| { fill(r, data, *cur + n); *cur += n; };
        fn put<'a, T: Model<'a>>(g: &mut Gen<'a>, data: &mut Vec<u8>, be: bool, n: usize) { for _ in 0..n { for _ in 0..30 { let v = T::gen(g); let mut e = Enc::wire(be); v.enc(&mut e); if e.bad.is_none() { data.extend_from_slice(&e.out); break; } } } }
        let arena = Arena::new();
        let mut g = Gen::new(Rng::new(r.u64()), &arena, if style == Style::Streams { 800 } else { 120 });
        match op {
            Op::Read(w) => need(&mut data, r, &mut cur, WIDTHS[w as usize]),
            Op::Bytes(n) | Op::Into(n) | Op::Skip(n) => need(&mut data, r, &mut cur, n),
            Op::Str(n) => { data.truncate(cur); data.extend_from_slice(g.string(n).as_bytes()); cur += n }
            Op::Varint => { data.truncate(cur); let v = r.int() as u64; data.extend(varint(v)); cur = data.len() }
            Op::Value(t) => { data.truncate(cur); values!(t, T => put::<T<'_>>(&mut g, &mut data, be, 1)); cur = data.len() }
            Op::Vect(t, n) | Op::Cow(t, n) | Op::Coll(t, n) => { data.truncate(cur); elems!(t, T => put::<T<'_>>(&mut g, &mut data, be, n)); cur = data.len() }
            Op::Kv(t, n) => { data.truncate(cur); kvs!(t, K, V => put::<(K, V)>(&mut g, &mut data, be, n)); cur = data.len() }
            Op::Endian(b) => be = b,
            Op::Borrow(_) | Op::BorrowR(_) if !(r.one_in(8)) => continue, // they move only some readers
            _ => {}
        }
        ops.push(op);
        if cur >= cap { break; }
    }
    if r.one_in(6) { let t = r.below(NELEMS as u64) as u8; ops.push(match r.below(4) { 0 => Op::VecEof(t), 1 => Op::CowEof(t), 2 => Op::CollEof(t), _ => Op::BorrowEof }); let n = r.us(60); for _ in 0..n { data.push(r.u64() as u8) } }
    match r.below(6) { 0 => { let n = r.us(12).min(data.len()); data.truncate(data.len() - n) } 1 => { let n = r.us(data.len() + 1); data.truncate(n) } 2 | 3 => { let n = r.us(40); for _ in 0..n { data.push(r.u64() as u8) } } 4 => { let n = r.us(9000); for i in 0..n { data.push((i * 31) as u8) } } _ => {} }
    (ops, data)
}
fn name(op: &Op) -> &'static str {
    match op { Op::Read(_) => "read", Op::Peek(_) => "peek", Op::Bytes(_) => "read_bytes", Op::PeekBytes(_) => "peek_bytes", Op::Into(_) => "read_bytes_into_ptr", Op::PeekInto(_) => "peek_bytes_into_ptr", Op::Skip(_) => "skip_bytes", Op::Can(_) => "can_read_at_least", Op::Varint => "read_u64_varint", Op::PeekVarint => "peek_u64_varint", Op::Borrow(_) => "read_bytes_borrowed", Op::BorrowR(_) => "read_bytes_borrowed_from_reader", Op::BorrowEof => "read_bytes_borrowed_until_eof", Op::Endian(_) => "context_mut", Op::AskEndian => "endianness", Op::Value(t) if (21..=25).contains(t) || *t == 27 => "read_value of a peek_tag enum", Op::Value(_) => "read_value", Op::Vect(..) => "read_vec", Op::Cow(..) => "read_cow", Op::Coll(..) => "read_collection", Op::Kv(..) => "read_key_value_collection", Op::Str(_) => "read_string", Op::VecEof(_) => "read_vec_until_eof", Op::CowEof(_) => "read_cow_until_eof", Op::CollEof(_) => "read_collection_until_eof" }
}
fn is_peek(op: &Op) -> bool { matches!(op, Op::Peek(_) | Op::PeekBytes(_) | Op::PeekInto(_) | Op::PeekVarint | Op::Can(_)) }
fn drive(cx: &mut Cx, style: Style, id: &str) {
    let path = cx.scratch("script.bin");
    let total = match style { Style::Streams => 500, _ => 700 } * cx.a.work / 100;
    for k in 0..total {
        if cx.late() { break; }
        let mut r = cx.rng(&[style as u64, cx.a.shard as u64, k]);
        let be = r.bool();
        let (ops, data) = make(&mut r, style, be);
        let data = Placed::new(&data, r.us(16));
        if cfg!(not(miri)) && r.one_in(4) { std::fs::write(&path, &data[..]).unwrap(); }
        else { let _ = std::fs::remove_file(&path); }
        let mut done = 0u64;
        for kind in KINDS {
            if kind == Kind::File && !path.exists() { continue; }
            if matches!(style, Style::Streams | Style::Faults) && !matches!(kind, Kind::Unbuffered | Kind::Buffered) && (style == Style::Faults || !r.one_in(4)) { continue; }
            let tries = if matches!(kind, Kind::Unbuffered | Kind::Buffered) { 2 } else { 1 };
            for _ in 0..tries {
                let mut plan = Plan::random(&mut r);
                let mut fault = None;
                if style == Style::Faults { let at = match r.below(4) { 0 => data.len(), 1 => r.us(20).min(data.len()), _ => r.us(data.len() + 1) }; let k = *r.pick(&[std::io::ErrorKind::TimedOut, std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::WouldBlock, std::io::ErrorKind::Other]); plan.fault = Some((at, k)); fault = Some((at, k)); }
                let case = format!("{kind:?} be={be} plan {plan:?} ops {ops:?}");
                about_to(&case, &data);
                let rep = |op: &str| [("data", hexfull(&data)), ("script", format!("{kind:?} be={be} {plan:?} {ops:?}")), ("at", op.to_string())];
                let (log, last, caller, used) = match run(kind, &ops, &data, be, &plan, &path) {
                    Ok(x) => x,
                    Err(m) => { let m2 = m.split(" at ").last().unwrap_or("").to_string(); cx.viol(format!("{id}|{kind:?}|{m2}"), format!("a script on a {kind:?} reader {m}; {case}"), &rep("")); continue; }
                };
                let mut c = Cursor { data: &data[..fault.map_or(data.len(), |f| f.0)], pos: 0, hi: 0, be, touched: 0, kind, fault: fault.map(|f| f.1) };
                let mut stopped = false;
                for (i, op) in ops.iter().enumerate() {
                    let at = c.pos;
                    // files may be mapped or streamed
                    if kind == Kind::File && log.get(i).is_some_and(|e| matches!((op, &e.got), (Op::Can(_), Got::Maybe(None)) | (Op::BorrowR(_), Got::NotOffered))) { cx.count("operations not offered on a file", 1); continue; }
                    let (want, stop) = c.step(op);
                    let Some(e) = log.get(i) else { cx.viol(format!("{id}|{kind:?}|stops"), format!("script stops at {op:?}"), &rep("")); break };
                    done += 1;
                    // the kind of failure is another property's business
                    let same = match (&e.got, &want) { (Got::Err { io: a, .. }, Got::Err { io: b, .. }) => fault.is_none() || a == b, (a, b) => a == b };
                    if !same {
                        let show = |g: &Got| match g { Got::Val(v) => hex(v), g => format!("{g:?}") };
                        cx.viol(format!("{id}|{kind:?}|{}", name(op)), format!("{kind:?} reader, {} bytes of data, operation {i} {op:?} at position {at} (big endian: {}) gives {} instead of {}; operations before it: {:?}", data.len(), c.be, show(&e.got), show(&want), &ops[i.saturating_sub(6)..i]), &rep(&format!("{i}")));
                        stopped = true;
                        break;
                    }
                    if kind == Kind::Unbuffered && e.stream > c.pos.max(c.hi) { cx.viol(format!("{id}|overread|{}", name(op)), format!("after operation {i} {op:?} an unbuffered reader at {} (peeked up to {}) has taken {} bytes from the stream", c.pos, c.hi, e.stream), &rep(&format!("{i}"))); stopped = true; break; }
                    cx.count(&format!("{}{}", name(op), if matches!(want, Got::Err { .. }) { " failing" } else { "" }), 1);
                    if stop { stopped = true; break; }
                }
                if stopped { continue; }
                let want = SCtx { be: c.be, touched: c.touched };
                if last.as_ref() != Some(&want) { cx.viol(format!("{id}|{kind:?}|context"), format!("the context at the end is {last:?} instead of {want:?}"), &rep("end")); }
                if let Some(cc) = caller { if cc != want { cx.viol(format!("{id}|{kind:?}|caller's context"), format!("the caller's context is left as {cc:?} instead of {want:?}"), &rep("end")); } }
                if let Some(n) = used { if n != c.pos { cx.viol(format!("{id}|{kind:?}|length"), format!("reported length {n} instead of {}", c.pos), &rep("end")); } }
                cx.count(&format!("scripts completed on {kind:?}"), 1);
            }
        }
        let key = hash_bytes(hash_bytes(style as u64, format!("{ops:?}").as_bytes()), &data);
        cx.eval(key, ops.iter().any(|o| is_peek(o)) || ops.len() > 1);
        cx.count("operations compared", done);
        cx.sample(|| format!("{:?} on {} bytes", ops, data.len()));
    }
    let _ = std::fs::remove_file(&path);
}
pub fn c12(cx: &mut Cx) { drive(cx, Style::Peeks, "C12") }
pub fn c19(cx: &mut Cx) { drive(cx, Style::Streams, "C19") }
pub fn c10_scripts(cx: &mut Cx) { drive(cx, Style::Faults, "C10") }
pub fn c20_scripts(cx: &mut Cx) { drive(cx, Style::Contexts, "C20") }

/// Scripts for Miri: small ones, by their seeds.
pub fn small(seed: u64, style: u64) -> bool { let (ops, data) = of(seed, style); ops.len() <= 10 && data.len() <= 300 }
fn of(seed: u64, style: u64) -> (Vec<Op>, Vec<u8>) {
    let mut r = Rng::new(seed);
    let be = r.bool();
    make(&mut r, [Style::Peeks, Style::Streams, Style::Contexts, Style::Faults][style as usize], be)
}
/// Runs a script without judging what it does. How many operations it got to, and hashes of the script and of what it gave.
pub fn bare(seed: u64, style: u64, kind: u64) -> (usize, u64, u64) {
    let (ops, data) = of(seed, style);
    let mut r = Rng::new(seed ^ 1);
    let mut what = hash_bytes(7, &data);
    let data = Placed::new(&data, r.us(16));
    let mut plan = Plan::random(&mut r);
    if r.one_in(4) { plan.fault = Some((r.us(data.len() + 1), std::io::ErrorKind::TimedOut)); }
    let kind = [Kind::Buffer, Kind::Copying, Kind::CopyingMut, Kind::Unbuffered, Kind::Buffered, Kind::Custom][kind as usize];
    let be = r.bool();
    what ^= ops.len() as u64;
    match run(kind, &ops, &data, be, &plan, std::path::Path::new("")) {
        Ok((log, last, caller, used)) => {
            if std::env::var_os("HZ_SHOW").is_some() { eprintln!("\n{kind:?} be={be} {plan:?}\n{ops:?}\n{}\n{log:?} {last:?} {caller:?} {used:?}", hex(&data)); }
            // how much a failed operation takes depends on whether blocks could be copied
            let failed = log.last().map_or(true, |l| matches!(l.got, Got::Err { .. } | Got::Invalid(_)));
            let mut h = hash_bytes(3, format!("{last:?} {caller:?} {:?}", if failed { None } else { used }).as_bytes());
            for l in &log { h = match &l.got { Got::Val(v) => hash_bytes(h, v), g => hash_bytes(h ^ 1, format!("{g:?}").as_bytes()) } }
            (log.len(), what, h)
        }
        Err(_) => (0, what, 0),
    }
}

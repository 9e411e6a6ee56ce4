//! Object-safe access to (type family, context) pairs.
use crate::model::*;
use crate::rng::Rng;
use crate::sut::*;
use speedy::{BigEndian, Context, Endianness, Error, LittleEndian, Readable, Reader, Writable, Writer};
use std::io::{Read, Write};
use std::marker::PhantomData;
use std::path::Path as FsPath;

/// The byte order of the machine, in which slices are borrowed.
#[cfg(target_endian = "little")]
pub type Native = LittleEndian;
#[cfg(target_endian = "big")]
pub type Native = BigEndian;

pub trait HCtx: Context<Error = Error> + Sized + 'static {
    const NAME: &'static str;
    fn mk(be: bool) -> Self;
    fn supports(be: bool) -> bool;
    /// Entry points without a context argument, where this is the default context.
    fn dflt_read<'a, T: Readable<'a, Self>>(_w: Way, _data: &'a [u8]) -> Option<(Result<T, Error>, Option<usize>)> { None }
    fn dflt_stream<'a, T: Readable<'a, Self>>(_buffered: bool, _s: &mut dyn Read) -> Option<Result<T, Error>> { None }
    fn dflt_file<'a, T: Readable<'a, Self>>(_p: &FsPath) -> Option<Result<T, Error>> { None }
    fn dflt_vec<T: Writable<Self>>(_v: &T) -> Option<Result<Vec<u8>, Error>> { None }
    fn dflt_buf<T: Writable<Self>>(_v: &T, _b: &mut [u8]) -> Option<Result<(), Error>> { None }
    fn dflt_wstream<T: Writable<Self>>(_v: &T, _s: &mut dyn Write) -> Option<Result<(), Error>> { None }
    fn dflt_wfile<T: Writable<Self>>(_v: &T, _p: &FsPath) -> Option<Result<(), Error>> { None }
}
impl HCtx for Endianness {
    const NAME: &'static str = "dyn";
    fn mk(be: bool) -> Self { if be { Endianness::BigEndian } else { Endianness::LittleEndian } }
    fn supports(_: bool) -> bool { true }
}
impl HCtx for BigEndian {
    const NAME: &'static str = "be";
    fn mk(_: bool) -> Self { BigEndian {} }
    fn supports(be: bool) -> bool { be }
}
impl HCtx for LittleEndian {
    const NAME: &'static str = "le";
    fn mk(_: bool) -> Self { LittleEndian {} }
    fn supports(be: bool) -> bool { !be }
    fn dflt_read<'a, T: Readable<'a, Self>>(w: Way, data: &'a [u8]) -> Option<(Result<T, Error>, Option<usize>)> {
        Some(match w {
            Way::Buf => (T::read_from_buffer(data), None),
            Way::BufLen => { let (r, n) = T::read_with_length_from_buffer(data); (r, Some(n)) }
            Way::Copy => (T::read_from_buffer_copying_data(data), None),
            Way::CopyLen => { let (r, n) = T::read_with_length_from_buffer_copying_data(data); (r, Some(n)) }
            Way::CopyMut => return None,
        })
    }
    fn dflt_stream<'a, T: Readable<'a, Self>>(buffered: bool, s: &mut dyn Read) -> Option<Result<T, Error>> {
        Some(if buffered { T::read_from_stream_buffered(s) } else { T::read_from_stream_unbuffered(s) })
    }
    fn dflt_file<'a, T: Readable<'a, Self>>(p: &FsPath) -> Option<Result<T, Error>> { Some(T::read_from_file(p)) }
    fn dflt_vec<T: Writable<Self>>(v: &T) -> Option<Result<Vec<u8>, Error>> { Some(v.write_to_vec()) }
    fn dflt_buf<T: Writable<Self>>(v: &T, b: &mut [u8]) -> Option<Result<(), Error>> { Some(v.write_to_buffer(b)) }
    fn dflt_wstream<T: Writable<Self>>(v: &T, s: &mut dyn Write) -> Option<Result<(), Error>> { Some(v.write_to_stream(s)) }
    fn dflt_wfile<T: Writable<Self>>(v: &T, p: &FsPath) -> Option<Result<(), Error>> { Some(v.write_to_file(p)) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Way { Buf, BufLen, Copy, CopyLen, CopyMut }
pub const WAYS: [Way; 5] = [Way::Buf, Way::BufLen, Way::Copy, Way::CopyLen, Way::CopyMut];
impl Way { pub fn borrows(self) -> bool { matches!(self, Way::Buf | Way::BufLen) } }

pub struct Good { pub canon: Vec<u8>, pub used: Option<usize>, pub refs: Vec<Ref>, pub owned: Vec<(usize, usize)>, pub invalid: Option<&'static str> }
pub enum Out { Ok(Good), Err(Error), Panic(String) }
impl std::fmt::Debug for Out {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Out::Ok(g) => write!(f, "Ok({}, used {:?}{})", hex(&g.canon), g.used, g.invalid.map(|i| format!(", INVALID {i}")).unwrap_or_default()),
            Out::Err(e) => write!(f, "Err({:?})", speedy::private::get_error_kind(e)),
            Out::Panic(m) => write!(f, "Panic({m})"),
        }
    }
}
impl Out {
    pub fn is_ok(&self) -> bool { matches!(self, Out::Ok(_)) }
    pub fn is_err(&self) -> bool { matches!(self, Out::Err(_)) }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len().min(170) + 40);
    for &x in b.iter().take(160) { for n in [x >> 4, x & 15] { s.push(b"0123456789abcdef"[n as usize] as char) } }
    if b.len() > 160 { s += &format!("...({} bytes)", b.len()); }
    s
}
pub fn hexfull(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

pub type W<T> = Result<Result<T, Error>, String>;
fn w<T>(r: Result<Result<T, Error>, Caught>) -> W<T> { r.map_err(|c| match c { Caught::Planned => "planned".into(), Caught::Panic(m) => m }) }
/// A live value which can be written.
pub trait Val {
    fn wire(&self, be: bool) -> Enc;
    fn canon(&self) -> Vec<u8>;
    fn expect(&self) -> Vec<u8>;
    fn bytes_needed(&self, be: bool) -> W<usize>;
    fn to_vec(&self, be: bool) -> W<Vec<u8>>;
    fn to_vec_mut(&self, be: bool) -> W<Vec<u8>>;
    fn to_buf(&self, be: bool, b: &mut [u8]) -> W<()>;
    fn to_buf_mut(&self, be: bool, b: &mut [u8]) -> W<()>;
    fn to_stream(&self, be: bool, s: &mut dyn Write) -> W<()>;
    /// Into a user's own writer, which takes so many bytes.
    fn to_own(&self, be: bool, room: usize) -> (W<()>, Vec<u8>);
    fn to_file(&self, be: bool, p: &FsPath) -> W<()>;
    fn dflt(&self, d: bool);
}
/// A writer and a reader with nothing but the required methods.
pub struct OwnWriter<C> { pub out: Vec<u8>, pub room: usize, pub ctx: C }
impl<C: Context<Error = Error>> Writer<C> for OwnWriter<C> {
    fn write_bytes(&mut self, s: &[u8]) -> Result<(), Error> {
        let n = s.len().min(self.room - self.out.len());
        self.out.extend_from_slice(&s[..n]);
        if n < s.len() { Err(Error::custom("no room left in my writer")) } else { Ok(()) }
    }
    fn context(&self) -> &C { &self.ctx }
    fn context_mut(&mut self) -> &mut C { &mut self.ctx }
}
pub struct OwnReader<'d, C> { pub data: &'d [u8], pub pos: usize, pub ctx: C }
impl<'a, 'd, C: Context> Reader<'a, C> for OwnReader<'d, C> {
    fn read_bytes(&mut self, o: &mut [u8]) -> Result<(), C::Error> { self.peek_bytes(o)?; self.pos += o.len(); Ok(()) }
    fn peek_bytes(&mut self, o: &mut [u8]) -> Result<(), C::Error> {
        if self.data.len() - self.pos < o.len() { return Err(eof_error().into()); }
        o.copy_from_slice(&self.data[self.pos..self.pos + o.len()]);
        Ok(())
    }
    fn context(&self) -> &C { &self.ctx }
    fn context_mut(&mut self) -> &mut C { &mut self.ctx }
}
pub fn eof_error() -> Error { u8::read_from_stream_unbuffered(&b""[..]).unwrap_err() }
struct VH<'v, T, C>(&'v T, std::cell::Cell<bool>, PhantomData<C>);
impl<'v, C: HCtx, T: View + Writable<C>> Val for VH<'v, T, C> {
    fn wire(&self, be: bool) -> Enc { let mut e = Enc::wire(be); self.0.enc(&mut e); e }
    fn canon(&self) -> Vec<u8> { let mut e = Enc::canon(); self.0.enc(&mut e); e.out }
    fn expect(&self) -> Vec<u8> { let mut e = Enc::expect(); self.0.enc(&mut e); e.out }
    fn bytes_needed(&self, _be: bool) -> W<usize> { w(call(|| Writable::<C>::bytes_needed(self.0))) }
    fn to_vec(&self, be: bool) -> W<Vec<u8>> { w(call(|| { if self.1.get() { if let Some(r) = C::dflt_vec(self.0) { return r; } } self.0.write_to_vec_with_ctx(C::mk(be)) })) }
    fn to_vec_mut(&self, be: bool) -> W<Vec<u8>> { w(call(|| { let mut c = C::mk(be); self.0.write_to_vec_with_ctx_mut(&mut c) })) }
    fn to_buf(&self, be: bool, b: &mut [u8]) -> W<()> { w(call(|| { if self.1.get() { if let Some(r) = C::dflt_buf(self.0, b) { return r; } } self.0.write_to_buffer_with_ctx(C::mk(be), b) })) }
    fn to_buf_mut(&self, be: bool, b: &mut [u8]) -> W<()> { w(call(|| { let mut c = C::mk(be); self.0.write_to_buffer_with_ctx_mut(&mut c, b) })) }
    fn to_stream(&self, be: bool, s: &mut dyn Write) -> W<()> { w(call(|| { if self.1.get() { if let Some(r) = C::dflt_wstream(self.0, s) { return r; } } self.0.write_to_stream_with_ctx(C::mk(be), s) })) }
    fn to_own(&self, be: bool, room: usize) -> (W<()>, Vec<u8>) { let mut o = OwnWriter { out: vec![], room, ctx: C::mk(be) }; let r = w(call(|| self.0.write_to(&mut o))); (r, o.out) }
    fn to_file(&self, be: bool, p: &FsPath) -> W<()> { w(call(|| { if self.1.get() { if let Some(r) = C::dflt_wfile(self.0, p) { return r; } } self.0.write_to_file_with_ctx(C::mk(be), p) })) }
    fn dflt(&self, d: bool) { self.1.set(d) }
}

pub trait Fam<C: HCtx>: 'static + Send + Sync {
    type T<'a>: Model<'a> + Readable<'a, C> + Writable<C>;
    const NAME: &'static str;
}
pub struct RefOut { pub res: DRes, pub canon: Vec<u8>, pub used: usize, pub refs: Vec<(usize, usize, usize, usize, u8)>, pub defaulted: bool, pub max_len: usize, pub wide: bool }
impl RefOut { pub fn ok(&self) -> bool { self.res.is_ok() } pub fn invalid(&self) -> bool { matches!(self.res, Err(DErr::Invalid(_))) }
    pub fn huge(&self) -> bool { self.res == Err(DErr::Huge) } }

pub trait Ops: Send + Sync {
    fn name(&self) -> &'static str;
    fn ctx(&self) -> &'static str;
    fn supports(&self, be: bool) -> bool;
    fn shape(&self) -> Shape;
    fn min_bytes(&self) -> usize;
    fn size_of(&self) -> usize;
    fn with_value(&self, rng: Rng, budget: i64, flags: u32, f: &mut dyn FnMut(&dyn Val));
    fn read_buf(&self, way: Way, dflt: bool, be: bool, data: &[u8]) -> Out;
    fn read_stream(&self, buffered: bool, dflt: bool, be: bool, s: &mut dyn Read) -> Out;
    /// By a user's own reader.
    fn read_own(&self, be: bool, data: &[u8]) -> Out;
    fn read_file(&self, dflt: bool, be: bool, p: &FsPath) -> Out { self.read_file_then(dflt, be, p, &mut || {}) }
    /// `then` runs after the call and before the value is looked at.
    fn read_file_then(&self, dflt: bool, be: bool, p: &FsPath, then: &mut dyn FnMut()) -> Out;
    fn refdec(&self, be: bool, borrow: bool, data: &[u8]) -> RefOut;
    /// Reads from a buffer and hands over the value, if any; without any further looking at it.
    fn read_then(&self, way: Way, be: bool, data: &[u8], f: &mut dyn FnMut(&dyn Val)) -> bool;
}
pub const HUGE: u32 = 1;
pub const PLAIN: u32 = 2;

pub struct OpsOf<F, C>(pub PhantomData<(F, fn() -> C)>);
impl<F, C> OpsOf<F, C> { pub const fn new() -> Self { OpsOf(PhantomData) } }
fn good<T: View>(v: T, used: Option<usize>) -> Out {
    let mut e = Enc::canon();
    v.enc(&mut e);
    drop(v);
    Out::Ok(Good { canon: e.out, used, refs: e.refs, owned: e.owned, invalid: e.invalid })
}
fn out<T: View>(r: (Result<T, Error>, Option<usize>)) -> Out { match r.0 { Ok(v) => good(v, r.1), Err(e) => Out::Err(e) } }
fn flat(r: Result<Out, Caught>) -> Out { match r { Ok(o) => o, Err(Caught::Planned) => Out::Panic("planned".into()), Err(Caught::Panic(m)) => Out::Panic(m) } }

impl<C: HCtx, F: Fam<C>> Ops for OpsOf<F, C> {
    fn name(&self) -> &'static str { F::NAME }
    fn ctx(&self) -> &'static str { C::NAME }
    fn supports(&self, be: bool) -> bool { C::supports(be) }
    fn shape(&self) -> Shape { shape_of::<F::T<'_>>() }
    fn min_bytes(&self) -> usize { <F::T<'_> as Readable<'_, C>>::minimum_bytes_needed() }
    fn size_of(&self) -> usize { std::mem::size_of::<F::T<'_>>() }
    fn with_value(&self, rng: Rng, budget: i64, flags: u32, f: &mut dyn FnMut(&dyn Val)) {
        let arena = Arena::new();
        let mut g = Gen::new(rng, &arena, budget);
        g.huge = flags & HUGE != 0;
        g.plain = flags & PLAIN != 0;
        let v = <F::T<'_> as Model<'_>>::gen(&mut g);
        f(&VH::<_, C>(&v, Default::default(), PhantomData));
    }
    fn read_buf(&self, way: Way, dflt: bool, be: bool, data: &[u8]) -> Out {
        flat(call(|| {
            type T<'x, F, C> = <F as Fam<C>>::T<'x>;
            if dflt { if let Some(r) = C::dflt_read::<T<F, C>>(way, data) { return out(r); } }
            out(match way {
                Way::Buf => (T::<F, C>::read_from_buffer_with_ctx(C::mk(be), data), None),
                Way::BufLen => { let (r, n) = T::<F, C>::read_with_length_from_buffer_with_ctx(C::mk(be), data); (r, Some(n)) }
                Way::Copy => (T::<F, C>::read_from_buffer_copying_data_with_ctx(C::mk(be), data), None),
                Way::CopyLen => { let (r, n) = T::<F, C>::read_with_length_from_buffer_copying_data_with_ctx(C::mk(be), data); (r, Some(n)) }
                Way::CopyMut => { let mut c = C::mk(be); let (r, n) = T::<F, C>::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut c, data); (r, Some(n)) }
            })
        }))
    }
    fn read_stream(&self, buffered: bool, dflt: bool, be: bool, s: &mut dyn Read) -> Out {
        flat(call(|| {
            if dflt { if let Some(r) = C::dflt_stream::<F::T<'_>>(buffered, s) { return out((r, None)); } }
            out((if buffered { <F::T<'_>>::read_from_stream_buffered_with_ctx(C::mk(be), s) } else { <F::T<'_>>::read_from_stream_unbuffered_with_ctx(C::mk(be), s) }, None))
        }))
    }
    fn read_own(&self, be: bool, data: &[u8]) -> Out {
        let mut r = OwnReader { data, pos: 0, ctx: C::mk(be) };
        flat(call(|| { let v = <F::T<'_>>::read_from(&mut r); let n = r.pos; out((v, Some(n))) }))
    }
    fn read_file_then(&self, dflt: bool, be: bool, p: &FsPath, then: &mut dyn FnMut()) -> Out {
        flat(call(|| {
            if dflt { if let Some(r) = C::dflt_file::<F::T<'_>>(p) { in_harness(&mut *then); return out((r, None)); } }
            let r = <F::T<'_>>::read_from_file_with_ctx(C::mk(be), p);
            in_harness(&mut *then);
            out((r, None))
        }))
    }
    fn read_then(&self, way: Way, be: bool, data: &[u8], f: &mut dyn FnMut(&dyn Val)) -> bool {
        type T<'x, F, C> = <F as Fam<C>>::T<'x>;
        let v = if way.borrows() { T::<F, C>::read_from_buffer_with_ctx(C::mk(be), data) } else { T::<F, C>::read_from_buffer_copying_data_with_ctx(C::mk(be), data) };
        match v { Ok(v) => { f(&VH::<_, C>(&v, Default::default(), PhantomData)); true } Err(_) => false }
    }
    fn refdec(&self, be: bool, borrow: bool, data: &[u8]) -> RefOut {
        let mut d = Dec::new(data, be, borrow);
        let mut e = Enc::canon();
        let res = <F::T<'_> as Model<'_>>::dec(&mut d, &mut e);
        RefOut { res, canon: e.out, used: d.pos, refs: d.refs, defaulted: d.defaulted, max_len: d.max_len, wide: d.wide }
    }
}

#[macro_export]
macro_rules! zoo {
    ($fname:ident, $ctx:ty; $($id:ident = $t:ty;)*) => {
        $(
            pub struct $id;
            impl $crate::ops::Fam<$ctx> for $id { type T<'a> = $t; const NAME: &'static str = stringify!($t); }
        )*
        pub fn $fname(v: &mut Vec<Box<dyn $crate::ops::Ops>>) { $( v.push(Box::new($crate::ops::OpsOf::<$id, $ctx>::new())); )* }
    };
}

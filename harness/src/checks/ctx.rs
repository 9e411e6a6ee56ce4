//! C20: contexts and custom errors threaded through everything that can contain a value.
use crate::ops::OwnReader;
use crate::cx::*;
use crate::model::*;
use crate::ops::hex;
use crate::ops::hexfull;
use crate::rng::*;
use crate::sut::*;
use speedy::{Context, Endianness, Error, IsEof, Readable, Reader, Writable, Writer};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::Range;

#[derive(Debug)]
pub enum MyErr { Speedy(Error), Mine(u8), MyEof(u8) }
thread_local!(static EOF_MODE: Cell<u8> = Cell::new(0));
impl From<Error> for MyErr { fn from(e: Error) -> Self { MyErr::Speedy(e) } }
impl IsEof for MyErr { fn is_eof(&self) -> bool { match EOF_MODE.with(|m| m.get()) { 1 => false, 2 => true, _ => match self { MyErr::Speedy(e) => e.is_eof(), MyErr::Mine(_) => false, MyErr::MyEof(_) => true } } } }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct ECtx { be: bool, log: Vec<u8> }
impl Context for ECtx { type Error = MyErr; fn endianness(&self) -> Endianness { if self.be { Endianness::BigEndian } else { Endianness::LittleEndian } } }

/// What the reference decoder or encoder saw: (log, error raised by a Spy)
thread_local! { static SEEN: RefCell<Vec<u8>> = RefCell::new(vec![]); static RAISED: Cell<Option<(u8, u8)>> = Cell::new(None); static FAILING: Cell<bool> = Cell::new(true); }
/// Whether a write without a size to check against is the sizing pass.
thread_local!(static TO_STREAM: Cell<bool> = Cell::new(false));

/// A value whose coding looks at and changes the context, and may fail in ways of its own.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Spy { op: u8, v: u32 }
impl<'a> Readable<'a, ECtx> for Spy {
    fn read_from<R: Reader<'a, ECtx>>(r: &mut R) -> Result<Self, MyErr> {
        let op = r.read_u8()? & 7;
        let be = (r.endianness() == Endianness::BigEndian) as u8;
        r.context_mut().log.push(op | be << 7);
        Ok(Spy { op, v: match op {
            0 => r.read_u16()? as u32,
            1 | 2 => { r.context_mut().be = op == 1; r.read_value::<u16>()? as u32 }
            3 => { let v = r.read_u32()?; let b = r.context().be; r.context_mut().be = !b; v }
            4 => return Err(MyErr::Mine(r.read_u8()?)),
            5 => return Err(MyErr::MyEof(r.read_u8()?)),
            6 => { let id = r.read_u8()?; return Err(Error::custom(format!("spy {id}")).into()) }
            _ => 0,
        } })
    }
    fn minimum_bytes_needed() -> usize { 1 }
}
impl Writable<ECtx> for Spy {
    fn write_to<T: ?Sized + Writer<ECtx>>(&self, w: &mut T) -> Result<(), MyErr> {
        let sizing = !TO_STREAM.with(|t| t.get()) && w.can_write_at_least(0).is_none();
        if !sizing { let be = (w.endianness() == Endianness::BigEndian) as u8; w.context_mut().log.push(self.op | be << 7); }
        w.write_u8(self.op)?;
        match self.op {
            0 => w.write_u16(self.v as u16),
            1 | 2 => { if !sizing { w.context_mut().be = self.op == 1; } w.write_value(&(self.v as u16)) }
            3 => { w.write_u32(self.v)?; if !sizing { let b = w.context().be; w.context_mut().be = !b; } Ok(()) }
            4 => Err(MyErr::Mine(self.v as u8)),
            5 => Err(MyErr::MyEof(self.v as u8)),
            6 => Err(Error::custom(format!("spy {}", self.v as u8)).into()),
            _ => Ok(()),
        }
    }
}
impl View for Spy {
    fn enc(&self, e: &mut Enc) {
        if e.canon { e.u8(self.op); e.num(self.v.to_le_bytes()); return; }
        if e.bad.is_some() { return; }
        SEEN.with(|s| s.borrow_mut().push(self.op | (e.be as u8) << 7));
        e.u8(self.op);
        match self.op {
            0 => e.num((self.v as u16).to_le_bytes()),
            1 | 2 => { e.be = self.op == 1; e.num((self.v as u16).to_le_bytes()) }
            3 => { e.num(self.v.to_le_bytes()); e.be = !e.be }
            4..=6 => { RAISED.with(|r| r.set(Some((self.op, self.v as u8)))); e.bad = Some("spy"); }
            _ => {}
        }
    }
}
impl<'a> Model<'a> for Spy {
    fn gen(g: &mut Gen<'a>) -> Self {
        let op = if FAILING.with(|f| f.get()) && g.rng.one_in(25) { 4 + g.rng.below(3) as u8 } else { *g.rng.pick(&[0, 0, 1, 2, 3, 3, 7]) };
        let v = match op { 0..=2 => g.rng.u64() as u16 as u32, 3 => g.rng.u64() as u32, 7 => 0, _ => g.rng.u64() as u8 as u32 };
        Spy { op, v }
    }
    fn dec(d: &mut Dec, e: &mut Enc) -> DRes {
        let op = d.u8()? & 7;
        SEEN.with(|s| s.borrow_mut().push(op | (d.be as u8) << 7));
        let v = match op {
            0 => d.u16()? as u32,
            1 | 2 => { d.be = op == 1; d.u16()? as u32 }
            3 => { let v = d.u32()?; d.be = !d.be; v }
            4..=6 => { let id = d.u8()?; RAISED.with(|r| r.set(Some((op, id)))); return Err(if op == 5 { DErr::Short } else { DErr::Invalid("spy") }) }
            _ => 0,
        };
        e.u8(op);
        e.num(v.to_le_bytes());
        Ok(())
    }
    fn shape() -> Shape { Shape::fixed(1).var().fails() }
}

macro_rules! modelled { ($name:ident $(<$lt:lifetime>)?, |$s:ident, $e:ident| $enc:expr, |$g:ident| $gen:expr, |$d:ident, $e2:ident| $dec:expr) => {
    impl $(<$lt>)? View for $name $(<$lt>)? { fn enc(&self, $e: &mut Enc) { let $s = self; $enc } }
    impl<'a> Model<'a> for $name $(<$lt>)? {
        fn gen($g: &mut Gen<'a>) -> Self { $gen }
        fn dec($d: &mut Dec, $e2: &mut Enc) -> DRes { $dec }
        fn shape() -> Shape { Shape::fixed(1).var().fails() }
    }
} }
#[derive(Readable, Writable, Debug)] pub struct D1G<S> { a: u16, s: S, b: u32, c: (u16, S, f64) } pub type D1 = D1G<Spy>;
modelled!(D1, |s, e| { s.a.enc(e); s.s.enc(e); s.b.enc(e); s.c.enc(e) }, |g| D1 { a: Model::gen(g), s: Model::gen(g), b: Model::gen(g), c: Model::gen(g) }, |d, e| { u16::dec(d, e)?; Spy::dec(d, e)?; u32::dec(d, e)?; <(u16, Spy, f64)>::dec(d, e) });
#[derive(Readable, Writable, Debug)] pub struct D2G<'a, S> { s: S, #[speedy(length_type = u16)] v: Vec<S>, #[speedy(varint)] x: u64, name: Cow<'a, str>, t: u16, #[speedy(constant_prefix = "zz")] u: S, w: Vec<u32> } pub type D2<'a> = D2G<'a, Spy>;
modelled!(D2<'a>, |s, e| { s.s.enc(e); enc_with(&s.v, e, LK::U16); if e.canon { e.num(s.x.to_le_bytes()) } else { e.raw(&varint(s.x)) } s.name.enc(e); s.t.enc(e); if !e.canon { e.raw(b"zz") } s.u.enc(e); s.w.enc(e) },
    |g| D2 { s: Model::gen(g), v: gen_with(g, 50), x: g.rng.int() as u64, name: Model::gen(g), t: Model::gen(g), u: Model::gen(g), w: Model::gen(g) },
    |d, e| { Spy::dec(d, e)?; dec_with::<Vec<Spy>>(d, e, LK::U16)?; let x = d.varint()?; e.num(x.to_le_bytes()); Cow::<str>::dec(d, e)?; u16::dec(d, e)?; d.constant(b"zz")?; Spy::dec(d, e)?; Vec::<u32>::dec(d, e) });
#[derive(Readable, Writable, Debug)] #[speedy(tag_type = u16)] pub enum DEG<S> { A(S, u16), B { s: S, v: Vec<u32>, t: Option<S> }, #[speedy(tag = 500)] C } pub type DE = DEG<Spy>;
modelled!(DE, |s, e| match s { DE::A(a, b) => { 0u16.enc(e); a.enc(e); b.enc(e) } DE::B { s, v, t } => { 1u16.enc(e); s.enc(e); v.enc(e); t.enc(e) } DE::C => 500u16.enc(e) },
    |g| match g.rng.below(5) { 0 | 1 => DE::A(Model::gen(g), Model::gen(g)), 2 | 3 => DE::B { s: Model::gen(g), v: Model::gen(g), t: Model::gen(g) }, _ => DE::C },
    |d, e| { let t = d.u16()?; e.num(t.to_le_bytes()); match t { 0 => { Spy::dec(d, e)?; u16::dec(d, e) } 1 => { Spy::dec(d, e)?; Vec::<u32>::dec(d, e)?; Option::<Spy>::dec(d, e) } 500 => Ok(()), _ => Err(DErr::Invalid("tag")) } });
#[derive(Readable, Writable, Debug)] pub struct DLG<S> { s: S, n: u16, #[speedy(length = n / 2)] v: Vec<S>, t: u32 } pub type DL = DLG<Spy>;
modelled!(DL, |s, e| { s.s.enc(e); s.n.enc(e); if e.canon { e.cnt(s.v.len()) } for x in &s.v { x.enc(e) } s.t.enc(e) },
    |g| { let v: Vec<Spy> = gen_with(g, 40); DL { s: Model::gen(g), n: v.len() as u16 * 2 + g.rng.below(2) as u16, v, t: Model::gen(g) } },
    |d, e| { Spy::dec(d, e)?; let n = d.u16()?; e.num(n.to_le_bytes()); d.promised(n as usize / 2); Vec::<Spy>::dec_body(d, e, n as usize / 2)?; u32::dec(d, e) });
#[derive(Readable, Writable, Debug)] pub struct DOpenG<S> { s: S, #[speedy(length = ..)] v: Vec<S> } pub type DOpen = DOpenG<Spy>;
modelled!(DOpen, |s, e| { s.s.enc(e); s.v.body(e) }, |g| DOpen { s: Model::gen(g), v: gen_with(g, 40) }, |d, e| { Spy::dec(d, e)?; Vec::<Spy>::dec_eof(d, e) });
#[derive(Readable, Writable, Debug)] pub struct DOpenMapG<S> { s: S, #[speedy(length = ..)] v: BTreeMap<u16, S> } pub type DOpenMap = DOpenMapG<Spy>;
modelled!(DOpenMap, |s, e| { s.s.enc(e); s.v.body(e) }, |g| DOpenMap { s: Model::gen(g), v: gen_with(g, 40) }, |d, e| { Spy::dec(d, e)?; BTreeMap::<u16, Spy>::dec_eof(d, e) });
#[derive(Readable, Writable, Debug)] pub struct DDefG<S: Default> { s: S, t: u16, #[speedy(default_on_eof)] u: S } pub type DDef = DDefG<Spy>;
modelled!(DDef, |s, e| { s.s.enc(e); s.t.enc(e); s.u.enc(e) }, |g| DDef { s: Model::gen(g), t: Model::gen(g), u: Model::gen(g) },
    |d, e| { Spy::dec(d, e)?; u16::dec(d, e)?; dec_or_default(d, e, Spy::dec, |e| Spy::default().enc(e)) });
#[derive(Readable, Writable, Debug)] pub struct DSkipG<S> { s: S, #[speedy(skip)] x: u32, t: u16 } pub type DSkip = DSkipG<Spy>;
modelled!(DSkip, |s, e| { s.s.enc(e); if e.canon { e.num(if e.expect { [0; 4] } else { s.x.to_le_bytes() }) } s.t.enc(e) }, |g| DSkip { s: Model::gen(g), x: Model::gen(g), t: Model::gen(g) }, |d, e| { Spy::dec(d, e)?; e.num([0; 4]); u16::dec(d, e) });
#[derive(Readable, Writable, Debug)] #[speedy(peek_tag)] #[speedy(tag_type = u16)] pub enum DPG<S> { #[speedy(tag = 0x0101)] A { t: u16, s: S }, #[speedy(tag = 0x0202)] B { t: u16, x: u64, s: [S; 2] } } pub type DP = DPG<Spy>;
modelled!(DP, |s, e| match s { DP::A { t, s } => { t.enc(e); s.enc(e) } DP::B { t, x, s } => { t.enc(e); x.enc(e); s.enc(e) } }, |g| if g.rng.bool() { DP::A { t: 0x101, s: Model::gen(g) } } else { DP::B { t: 0x202, x: Model::gen(g), s: Model::gen(g) } },
    |d, e| { let t = d.u16()?; e.num(t.to_le_bytes()); match t { 0x101 => Spy::dec(d, e), 0x202 => { u64::dec(d, e)?; <[Spy; 2]>::dec(d, e) } _ => Err(DErr::Invalid("tag")) } });
#[derive(Readable, Writable, Debug)] pub struct DGen<T> { a: T, b: u32, c: Vec<T> }
impl<T: View> View for DGen<T> { fn enc(&self, e: &mut Enc) { self.a.enc(e); self.b.enc(e); self.c.enc(e) } }
impl<'a, T: Model<'a>> Model<'a> for DGen<T> { fn gen(g: &mut Gen<'a>) -> Self { DGen { a: T::gen(g), b: u32::gen(g), c: Model::gen(g) } } fn dec(d: &mut Dec, e: &mut Enc) -> DRes { T::dec(d, e)?; u32::dec(d, e)?; Vec::<T>::dec(d, e) } fn shape() -> Shape { Shape::fixed(1).var().fails() } }

#[derive(Debug, PartialEq, Clone)]
enum Want { Ok(Vec<u8>), Mine(u8), MyEof(u8), Custom(u8), Speedy { eof: bool } }
fn classify(e: &MyErr) -> Want { match e { MyErr::Mine(i) => Want::Mine(*i), MyErr::MyEof(i) => Want::MyEof(*i), MyErr::Speedy(e) => { let t = e.to_string(); match t.strip_prefix("spy ") { Some(i) => Want::Custom(i.parse().unwrap()), None => Want::Speedy { eof: e.is_eof() } } } } }
fn raised() -> Option<Want> { RAISED.with(|r| r.take()).map(|(op, id)| match op { 4 => Want::Mine(id), 5 => Want::MyEof(id), _ => Want::Custom(id) }) }

/// Writes into memory with nothing but the required methods.
struct OwnWriter { out: Vec<u8>, ctx: ECtx }
impl Writer<ECtx> for OwnWriter {
    fn write_bytes(&mut self, s: &[u8]) -> Result<(), MyErr> { self.out.extend_from_slice(s); Ok(()) }
    fn context(&self) -> &ECtx { &self.ctx }
    fn context_mut(&mut self) -> &mut ECtx { &mut self.ctx }
}
/// `F` is the same type at any lifetime.
pub trait FamE { type T<'a>: Model<'a> + Readable<'a, ECtx> + Writable<ECtx>; const NAME: &'static str; }
fn one<F: FamE>(cx: &mut Cx, idx: u64) {
    let path = cx.scratch("ctx.bin");
    for k in 0..(60 * cx.a.work / 100).max(1) {
        let mut r = cx.rng(&[20, idx, k, cx.a.shard as u64]);
        let be = r.bool();
        FAILING.with(|f| f.set(r.bool()));
        let budget = *r.pick(&[20, 60, 200]);
        let arena = Arena::new();
        let mut g = Gen::new(Rng::new(r.u64()), &arena, budget);
        let v = <F::T<'_>>::gen(&mut g);
        // ---- writing
        SEEN.with(|s| s.borrow_mut().clear());
        RAISED.with(|x| x.set(None));
        let mut e = Enc::wire(be);
        v.enc(&mut e);
        if e.bad.is_some() && e.bad != Some("spy") { continue; }
        let seen = SEEN.with(|s| s.take());
        let want = raised();
        let end = ECtx { be: e.be, log: seen };
        let wire = e.out.clone();
        let ctx = || ECtx { be, log: vec![] };
        let case = format!("writing {} be={be}", F::NAME);
        about_to(&case, &wire);
        let res = call(|| {
            TO_STREAM.with(|t| t.set(false));
            let mut o: Vec<(&str, Result<Vec<u8>, MyErr>, Option<ECtx>)> = vec![];
            o.push(("write_to_vec_with_ctx", v.write_to_vec_with_ctx(ctx()), None));
            let mut c = ctx(); let x = v.write_to_vec_with_ctx_mut(&mut c); o.push(("write_to_vec_with_ctx_mut", x, Some(c)));
            let mut b = vec![0xA5; wire.len()]; let x = v.write_to_buffer_with_ctx(ctx(), &mut b); o.push(("write_to_buffer_with_ctx", x.map(|_| b), None));
            let mut b = vec![0xA5; wire.len() + 5]; let mut c = ctx(); let x = v.write_to_buffer_with_ctx_mut(&mut c, &mut b); b.truncate(wire.len()); o.push(("write_to_buffer_with_ctx_mut", x.map(|_| b), Some(c)));
            TO_STREAM.with(|t| t.set(true));
            let mut b = vec![]; let x = v.write_to_stream_with_ctx(ctx(), &mut b); o.push(("write_to_stream_with_ctx", x.map(|_| b), None));
            if k % 4 == 0 { let x = v.write_to_file_with_ctx(ctx(), &path); o.push(("write_to_file_with_ctx", x.map(|_| std::fs::read(&path).unwrap()), None)); }
            let mut w = OwnWriter { out: vec![], ctx: ctx() }; let x = v.write_to(&mut w); o.push(("a writer of the user's", x.map(|_| w.out), Some(w.ctx)));
            TO_STREAM.with(|t| t.set(false));
            o
        });
        let rep = [("data", hexfull(&wire)), ("type", F::NAME.to_string())];
        match res {
            Err(Caught::Panic(m)) => cx.viol(format!("C20|{}|write panic", F::NAME), format!("{case} ({}) panics: {m}", hex(&wire)), &rep),
            Err(_) => {}
            Ok(o) => for (how, got, c) in o {
                cx.count("writes compared", 1);
                match (&got, &want) {
                    (Ok(b), None) => {
                        if *b != wire { cx.viol(format!("C20|{}|bytes", F::NAME), format!("{how} of {} be={be} gives {} instead of {}", F::NAME, hex(b), hex(&wire)), &rep); }
                        if let Some(c) = c { cx.count("contexts compared after writing", 1); if c != end { cx.viol(format!("C20|{}|write context", F::NAME), format!("{how} of {} be={be} leaves the context {c:?} instead of {end:?}", F::NAME), &rep); } }
                    }
                    (Err(e), Some(w)) => if classify(e) != *w { cx.viol(format!("C20|{}|write error", F::NAME), format!("{how} of {} fails with {e:?} instead of {w:?}", F::NAME), &rep) } else { cx.count("custom errors passed through writes", 1) },
                    (Ok(_), Some(w)) => cx.viol(format!("C20|{}|write error lost", F::NAME), format!("{how} of {} succeeds instead of failing with {w:?}", F::NAME), &rep),
                    (Err(e), None) => cx.viol(format!("C20|{}|write fails", F::NAME), format!("{how} of {} ({}) fails with {e:?}", F::NAME, hex(&wire)), &rep),
                }
            }
        }
        // ---- reading: the value, failures planted in it, and cut short
        let mut e = Enc::wire(be);
        FAILING.with(|f| f.set(false));
        { let arena = Arena::new(); let mut g = Gen::new(Rng::new(r.u64()), &arena, budget); <F::T<'_>>::gen(&mut g).enc(&mut e); }
        let mut data = e.out;
        match r.below(6) { 0 => { let n = r.us(data.len() + 1); data.truncate(n) } 1 => { let n = r.us(9); for _ in 0..n { data.push(r.u64() as u8) } } 2 => { for _ in 0..3 { if data.len() > 0 { let i = r.us(data.len()); data[i] = r.below(8) as u8 } } } 3 => mutate(&mut r, &mut data), _ => {} }
        let data = Placed::new(&data, r.us(16));
        SEEN.with(|s| s.borrow_mut().clear());
        RAISED.with(|x| x.set(None));
        let mut d = Dec::new(&data, be, false);
        let mut e = Enc::canon();
        let out = <F::T<'_>>::dec(&mut d, &mut e);
        let (pos, endbe, over) = (d.pos, d.be, d.over);
        let seen = SEEN.with(|s| s.take());
        let spy = raised();
        let want = match out { Ok(()) => Want::Ok(e.out), Err(DErr::Huge) => continue, Err(x) => match spy { Some(w) => w, None => Want::Speedy { eof: x == DErr::Short } } };
        // a length which promises more than is there may be refused before the elements are looked at
        let end = ECtx { be: endbe, log: seen };
        let case = format!("reading {} be={be}", F::NAME);
        about_to(&case, &data);
        let min = <F::T<'_> as Readable<'_, ECtx>>::minimum_bytes_needed();
        for how in 0..7u32 {
            if how == 5 && (cfg!(miri) || k % 4 != 0) { continue; }
            let plan = Plan::random(&mut r);
            let mut c = ctx();
            let got = call(|| {
                type T<'x, F> = <F as FamE>::T<'x>;
                let canon = |v: T<F>| { let mut e = Enc::canon(); v.enc(&mut e); e.out };
                match how {
                    0 => T::<F>::read_from_buffer_with_ctx(ctx(), &data).map(canon),
                    1 => T::<F>::read_from_buffer_copying_data_with_ctx(ctx(), &data).map(canon),
                    2 => T::<F>::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut c, &data).0.map(canon),
                    3 => T::<F>::read_from_stream_unbuffered_with_ctx(ctx(), SimRead::new(&data, plan.clone())).map(canon),
                    4 => T::<F>::read_from_stream_buffered_with_ctx(ctx(), SimRead::new(&data, plan.clone())).map(canon),
                    5 => { std::fs::write(&path, &data[..]).unwrap(); T::<F>::read_from_file_with_ctx(ctx(), &path).map(canon) }
                    _ => { let mut p = OwnReader { data: &data, pos: 0, ctx: ctx() }; let x = T::<F>::read_from(&mut p).map(canon); c = p.ctx; x }
                }
            });
            let how_s = ["read_from_buffer", "copying read", "copying read with &mut context", "unbuffered stream", "buffered stream", "file", "a reader of the user's"][how as usize];
            let rep = [("data", hexfull(&data)), ("type", F::NAME.to_string()), ("how", how_s.to_string()), ("be", be.to_string())];
            let got = match got { Ok(g) => g, Err(Caught::Panic(m)) => { cx.viol(format!("C20|{}|read panic", F::NAME), format!("{case} ({how_s}) panics: {m}"), &rep); continue } Err(_) => continue };
            cx.count("reads compared", 1);
            if data.len() < min && how != 3 && how != 4 && how != 6 { if got.is_ok() { cx.viol(format!("C20|{}|minimum", F::NAME), format!("{how_s} accepts fewer bytes than the minimum"), &rep); } continue; }
            let g = match &got { Ok(c) => Want::Ok(c.clone()), Err(e) => classify(e) };
            let same = g == want || (over && !matches!(want, Want::Ok(_)) && g == Want::Speedy { eof: true });
            let exact = g == want;
            if !same { cx.viol(format!("C20|{}|read", F::NAME), format!("{how_s} of {} be={be} {} gives {g:?} instead of {want:?}", F::NAME, hex(&data)), &rep); continue; }
            if (how == 2 || how == 6) && exact && (matches!(want, Want::Ok(_)) || matches!(want, Want::Mine(_) | Want::MyEof(_) | Want::Custom(_))) {
                cx.count("contexts compared after reading", 1);
                if c != end { cx.viol(format!("C20|{}|read context", F::NAME), format!("{how_s} of {} be={be} {} leaves the context {c:?} instead of {end:?} (result {g:?}, {pos} bytes)", F::NAME, hex(&data)), &rep); }
            }
            match g { Want::Ok(_) => {} Want::Speedy { .. } => cx.count("speedy's errors converted", 1), _ => cx.count("custom errors passed through reads", 1) }
        }
        cx.eval(hash_bytes(idx * 2 + be as u64, &data) ^ 0x20, data.len() > 0);
    }
    let _ = std::fs::remove_file(&path);
}

/// is_eof of the context's error, not speedy's, decides.
fn eof_modes(cx: &mut Cx) {
    #[derive(Readable, Debug)] struct U { a: u8, #[speedy(length = ..)] v: Vec<u16> }
    #[derive(Readable, Debug)] struct M { #[speedy(length = ..)] v: BTreeSet<u16> }
    #[derive(Readable, Debug)] struct Ch { #[speedy(length = ..)] v: Vec<char> }
    #[derive(Readable, Debug)] struct Df { a: u8, #[speedy(default_on_eof)] b: u32 }
    #[derive(Readable, Debug)] struct DfC { a: u8, #[speedy(default_on_eof)] b: char }
    #[derive(Readable, Debug)] struct DfS { a: u8, #[speedy(default_on_eof)] b: String }
    fn go<T: for<'a> Readable<'a, ECtx> + std::fmt::Debug>(cx: &mut Cx, mode: u8, what: &str, data: &[u8], want: bool, f: impl Fn(&T) -> bool) {
        EOF_MODE.with(|m| m.set(mode));
        let r = call(|| [T::read_from_buffer_with_ctx(ECtx::default(), data), T::read_from_buffer_copying_data_with_ctx(ECtx::default(), data), T::read_from_stream_unbuffered_with_ctx(ECtx::default(), data), T::read_from_stream_buffered_with_ctx(ECtx::default(), data)]);
        EOF_MODE.with(|m| m.set(0));
        match r {
            Ok(rs) => for r in rs { cx.count("reads with another idea of the end of input", 1); if r.is_ok() != want || r.as_ref().map_or(false, |v| !f(v)) { cx.viol(format!("C20|eof mode {mode}|{what}"), format!("{what} from {} with is_eof {} gives {r:?}", hex(data), if mode == 1 { "never true" } else { "always true" }), &[]); } },
            Err(_) => cx.viol(format!("C20|eof mode {mode}|{what}"), format!("{what} panics"), &[]),
        }
        cx.eval(hash_bytes(mode as u64, what.as_bytes()), true);
    }
    go::<U>(cx, 1, "until the end, never reached", &[1, 2, 0, 3, 0], false, |_| true);
    go::<M>(cx, 1, "set until the end, never reached", &[2, 0, 3, 0], false, |_| true);
    go::<Df>(cx, 1, "default_on_eof, no end", &[1, 2, 0], false, |_| true);
    go::<Df>(cx, 1, "default_on_eof, present", &[1, 2, 0, 0, 0], true, |v| v.b == 2);
    go::<DfS>(cx, 1, "default_on_eof string, no end", &[1, 2, 0], false, |_| true);
    go::<Ch>(cx, 2, "chars until a bad one", &[65, 0, 0, 0, 66, 0, 0, 0, 0, 0xD8, 0, 0, 67, 0, 0, 0], true, |v| v.v == ['A', 'B']);
    go::<DfC>(cx, 2, "default_on_eof of a bad char", &[1, 0, 0xD8, 0, 0], true, |v| v.b == '\0');
    go::<DfS>(cx, 2, "default_on_eof of a bad string", &[1, 1, 0, 0, 0, 0xFF], true, |v| v.b.is_empty());
    go::<U>(cx, 2, "numbers until the end", &[1, 2, 0, 3, 0], true, |v| v.v == [2, 3]);
}
/// A value may ask its writer for the context, also while its size is being worked out.
fn sizing(cx: &mut Cx) {
    struct Asks(u16);
    impl<C: Context> Writable<C> for Asks { fn write_to<T: ?Sized + Writer<C>>(&self, w: &mut T) -> Result<(), C::Error> { match w.context().endianness() { Endianness::BigEndian => w.write_bytes(&self.0.to_be_bytes()), _ => w.write_bytes(&self.0.to_le_bytes()) } } }
    let run = |f: &dyn Fn() -> Option<Vec<u8>>| match call(f) { Ok(Some(b)) if b == [0x12, 0x34] => None, Ok(x) => Some(format!("gives {x:?}")), Err(Caught::Panic(m)) => Some(format!("panics: {}", m)), Err(_) => None };
    let mut bad = vec![];
    for (how, r) in [
        ("write_to_vec_with_ctx", run(&|| Asks(0x1234).write_to_vec_with_ctx(Endianness::BigEndian).ok())),
        ("write_to_buffer_with_ctx", run(&|| { let mut b = vec![0; 2]; Asks(0x1234).write_to_buffer_with_ctx(Endianness::BigEndian, &mut b).ok().map(|_| b) })),
    ] { if let Some(m) = r { bad.push(format!("{how} {m}")); } cx.count("writes of a value which asks for the context", 1); }
    if let Some(m) = run(&|| { let mut b = vec![]; Asks(0x1234).write_to_stream_with_ctx(Endianness::BigEndian, &mut b).ok().map(|_| b) }) { cx.viol("C20|stream writer has no context", format!("write_to_stream_with_ctx {m}"), &[]); }
    if !bad.is_empty() { cx.viol("C20|no context while sizing", format!("a Writable which asks its writer for the context and leaves bytes_needed() to the default: {}", bad.join("; ")), &[]); }
}
macro_rules! fams { ($cx:ident; $($n:ident = $t:ty;)*) => { { let mut i = 0u64; $( #[allow(non_camel_case_types)] struct $n; impl FamE for $n { type T<'a> = $t; const NAME: &'static str = stringify!($t); } i += 1; if !$cx.late() { one::<$n>($cx, i); } )* } } }
pub fn c20(cx: &mut Cx) {
    super::script::c20_scripts(cx);
    if cx.a.shard == 0 { eof_modes(cx); sizing(cx); }
    fams! { cx;
        A1 = Spy; A2 = (Spy, u16, Spy); A3 = Vec<Spy>; A4 = [Spy; 3]; A5 = Option<Spy>; A6 = Result<Spy, u16>; A7 = Vec<(Spy, u32)>; A8 = BTreeMap<u16, Spy>; A9 = BTreeMap<Spy, u8>; A10 = BTreeSet<Spy>;
        A11 = Box<[Spy]>; A12 = Cow<'a, [Spy]>; A13 = Box<Spy>; A14 = Range<Spy>; A15 = (Spy, String, Vec<u16>, Spy, u64); A16 = Option<Vec<Spy>>; A17 = HashMap<u8, Spy>; A18 = smallvec::SmallVec<[Spy; 2]>; A19 = indexmap_v2::IndexMap<u8, Spy>; A20 = indexmap_v1::IndexSet<Spy>;
        A21 = Vec<Vec<Spy>>; A22 = (Spy, [u32; 3], Cow<'a, str>, Cow<'a, [u16]>, (u8, f32), std::time::Duration, speedy::private::VarInt64, char, std::net::Ipv4Addr);
        A23 = (Spy, BTreeMap<u16, u64>, BTreeSet<u32>, Vec<[u16; 2]>, Option<u64>, Range<i16>, usize);
        B1 = D1; B2 = D2<'a>; B3 = DE; B4 = DL; B5 = DOpen; B6 = DOpenMap; B7 = DDef; B8 = DSkip; B9 = DP; B10 = DGen<Spy>; B11 = Vec<DE>; B12 = [D1; 2]; B13 = BTreeMap<u8, D1>; B14 = DGen<(Spy, u8)>; B15 = Option<DP>;
        B16 = Vec<[Spy; 2]>; B17 = [[Spy; 2]; 2]; B18 = Vec<Option<Spy>>; B19 = Result<D1, DE>; B20 = indexmap_v1::IndexMap<Spy, u16>; B21 = Cow<'a, BTreeMap<u16, Spy>>; B22 = std::ops::RangeInclusive<Spy>; B23 = Box<[D1]>; B24 = (u8, (Spy, (u16, Spy)), u32);
    }
}

//! Prints, for every type the enabled features of speedy support and a fixed series of inputs, what
//! reading and writing does. The same line must come out under every configuration which has it.
//! Line: group<TAB>type#case op<TAB>what happened
#![allow(dead_code, unused_imports, unused_macros, unused_variables, unused_mut, deprecated)]
use speedy::{Context, Endianness, IsEof, LittleEndian, Readable, Reader, Writable, Writer};
use std::borrow::Cow;
use std::fmt::Write as _;
use std::io::Write as _;

// ---- inputs
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
}
fn hash(s: &[u8]) -> u64 { let mut h = 0xcbf29ce484222325u64; for &b in s { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h }
fn input(r: &mut Rng, be: bool, hints: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    let n = match r.below(8) { 0 => 0, 1..=4 => 1 + r.below(6), _ => r.below(24) };
    if !hints.is_empty() && r.below(5) != 0 { v.extend_from_slice(hints[r.below(hints.len() as u64) as usize]); }
    for _ in 0..n {
        match r.below(16) {
            0..=3 => { let x = r.below(6) as u32; v.extend(if be { x.to_be_bytes() } else { x.to_le_bytes() }) }
            4 => v.push(r.below(4) as u8),
            5 => { let k = 1 + r.below(5); for _ in 0..k { v.push(b'a' + r.below(26) as u8) } }
            6 => { for _ in 0..r.below(9) { v.push(r.next() as u8) } }
            7 => v.extend(r.next().to_le_bytes()),
            8 => { let x = r.next() >> r.below(64); v.extend(if be { x.to_be_bytes() } else { x.to_le_bytes() }) }
            9 => v.extend("żó\u{10FFFF}".as_bytes()),
            10 => v.extend([0xFF; 8].iter().take(r.below(9) as usize)),
            11 => { let x = [0x41u32, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 0x20AC][r.below(8) as usize]; v.extend(if be { x.to_be_bytes() } else { x.to_le_bytes() }) }
            12 => v.extend([0; 16].iter().take(r.below(17) as usize)),
            13 => { let x = r.below(5) as u16; v.extend(if be { x.to_be_bytes() } else { x.to_le_bytes() }) }
            14 => { let x = [0x3F800000u32, 0x7FC00001, 0xFF800000, 0x80000000][r.below(4) as usize]; v.extend(if be { x.to_be_bytes() } else { x.to_le_bytes() }) }
            _ => { if !hints.is_empty() { v.extend_from_slice(hints[r.below(hints.len() as u64) as usize]) } else { v.extend(999_999_999u32.to_le_bytes()) } }
        }
    }
    if r.below(40) == 0 { let n = 1000 + r.below(20000); v.extend((0..n).map(|i| (i * 7) as u8)); let x = n as u32; let l = if be { x.to_be_bytes() } else { x.to_le_bytes() }; v.splice(0..0, l); }
    v
}

// ---- user-written ends
pub struct Plain<'a, C> { pub data: &'a [u8], pub ctx: C }
impl<'a, C: Context> Reader<'a, C> for Plain<'a, C> {
    fn read_bytes(&mut self, o: &mut [u8]) -> Result<(), C::Error> { self.peek_bytes(o)?; self.data = &self.data[o.len()..]; Ok(()) }
    fn peek_bytes(&mut self, o: &mut [u8]) -> Result<(), C::Error> { if self.data.len() < o.len() { return Err(eof()); } o.copy_from_slice(&self.data[..o.len()]); Ok(()) }
    fn context(&self) -> &C { &self.ctx }
    fn context_mut(&mut self) -> &mut C { &mut self.ctx }
}
/// An end-of-input error as speedy makes it.
fn eof<E: From<speedy::Error>>() -> E { <(u8, u8)>::read_from(&mut Nothing).unwrap_err().into() }
struct Nothing;
impl<'a> Reader<'a, LittleEndian> for Nothing {
    fn read_bytes(&mut self, _: &mut [u8]) -> Result<(), speedy::Error> { struct Two(u8); impl<'a, C: Context> Readable<'a, C> for Two { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { r.read_u8()?; r.read_u8().map(Two) } } Err(Two::read_from_buffer_with_ctx(LittleEndian {}, &[1]).err().unwrap()) }
    fn peek_bytes(&mut self, o: &mut [u8]) -> Result<(), speedy::Error> { self.read_bytes(o) }
    fn context(&self) -> &LittleEndian { &LittleEndian {} }
    fn context_mut(&mut self) -> &mut LittleEndian { unimplemented!() }
}
pub struct Sink<C>(pub Vec<u8>, pub C);
impl<C: Context> Writer<C> for Sink<C> {
    fn write_bytes(&mut self, s: &[u8]) -> Result<(), C::Error> { self.0.extend_from_slice(s); Ok(()) }
    fn context(&self) -> &C { &self.1 }
    fn context_mut(&mut self) -> &mut C { &mut self.1 }
}
/// A stream which hands out little at a time.
struct Drip<'a>(&'a [u8], usize);
impl<'a> std::io::Read for Drip<'a> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = self.0.len().min(b.len()).min(self.1); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }

/// Reader methods one by one.
pub struct Probe(String);
impl std::fmt::Debug for Probe { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl<'a, C: Context> Readable<'a, C> for Probe {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let mut s = String::new();
        let plan = r.read_u8()?;
        let mut rng = Rng(plan as u64);
        for _ in 0..8 {
            macro_rules! go { ($($m:ident),*) => {{ let all: &[(&str, fn(&mut R) -> Result<String, C::Error>)] = &[$((stringify!($m), |r| r.$m().map(|v| format!("{v:?}")))),*]; let (n, f) = all[rng.below(all.len() as u64) as usize]; match f(r) { Ok(v) => write!(s, "{n}={v} ").unwrap(), Err(e) if n.starts_with("peek") => write!(s, "{n} fails (eof {}) ", e.is_eof()).unwrap(), Err(e) => return Err(e) } }} }
            let n = rng.below(12) as usize;
            match rng.below(8) {
                0..=3 => go!(read_u8, peek_u8, read_i8, peek_i8, read_u16, peek_u16, read_i16, peek_i16, read_u32, peek_u32, read_i32, peek_i32, read_u64, peek_u64, read_i64, peek_i64, read_u128, peek_u128, read_i128, peek_i128, read_f32, peek_f32, read_f64, peek_f64, read_u64_varint, peek_u64_varint),
                4 => { r.skip_bytes(n)?; write!(s, "skip {n} ").unwrap() }
                5 => write!(s, "can {n}: {:?} {:?} ", r.can_read_at_least(n), r.endianness()).unwrap(),
                6 => match r.read_bytes_borrowed(n) { None => write!(s, "no borrowing ").unwrap(), Some(x) => write!(s, "{:?} ", x?).unwrap() },
                _ => { let mut b = [0x5A; 12]; r.read_bytes(&mut b[..n])?; write!(s, "{:?} ", &b[..n]).unwrap() }
            }
        }
        if plan & 1 == 0 { match r.read_bytes_borrowed_until_eof() { None => write!(s, "no rest").unwrap(), Some(x) => write!(s, "rest {x:?}").unwrap() } }
        Ok(Probe(s))
    }
}
impl<C: Context> Writable<C> for Probe {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> {
        let h = hash(self.0.as_bytes());
        w.write_u8(h as u8)?; w.write_i8(h as i8)?; w.write_u16(h as u16)?; w.write_i16(h as i16)?; w.write_u32(h as u32)?; w.write_i32(h as i32)?; w.write_u64(h)?; w.write_i64(h as i64)?;
        w.write_u128((h as u128) << 60)?; w.write_i128(-((h as i128) << 60))?; w.write_f32(f32::from_bits(h as u32))?; w.write_f64(f64::from_bits(h))?; w.write_u64_varint(h >> (h % 64))?;
        w.write_value(&(h as u8, h as u16))?; w.write_slice(&[h, h ^ 1])
    }
}

// ---- what happened
#[inline(never)] fn err(e: &speedy::Error) -> String {
    // how it is displayed is asked for where it can be
    #[cfg(feature = "alloc")] { let d = e.to_string(); if d.is_empty() { return "an error without a message".into(); } }
    format!("Err({:?}, eof {})", speedy::private::get_error_kind(e), e.is_eof())
}
#[inline(never)] fn show(v: &dyn std::fmt::Debug, hashed: bool) -> String { let s = format!("{v:?}"); if hashed { let mut b = s.into_bytes(); b.sort(); short(&b) } else if s.len() > 300 { format!("{}..~{:x}", s.chars().take(200).collect::<String>(), hash(s.as_bytes())) } else { s } }
fn short(b: &[u8]) -> String { if b.len() > 100 { format!("{} bytes~{:x}", b.len(), hash(b)) } else { b.iter().map(|x| format!("{x:02x}")).collect() } }
#[inline(never)] fn bytes(b: &[u8], hashed: bool) -> String { if hashed { let mut v = b.to_vec(); v.sort(); short(&v) } else { short(b) } }

pub struct Out { w: std::io::BufWriter<std::fs::File>, cases: u64, only: Option<(String, u64)> }
impl Out {
    fn line(&mut self, group: &str, ty: &str, k: u64, op: &str, f: &mut dyn FnMut() -> String) {
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(s) => s, Err(p) => format!("PANIC {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) };
        writeln!(self.w, "{group}\t{ty}#{k} {op}\t{}", r.replace(['\n', '\t'], " ")).unwrap();
    }
}
/// Every way of reading and writing T there is under the current features.
fn reading<'a, T: Readable<'a, C> + std::fmt::Debug, C: Context<Error = speedy::Error>>(o: &mut Out, group: &str, name: &str, ctx: &dyn Fn() -> C, data: &'a [u8], k: u64, hashed: bool) {
        
        macro_rules! res { ($r:expr) => { match $r { Ok(v) => show(&v, hashed), Err(e) => err(&e) } } }
        macro_rules! len { ($r:expr) => {{ let (r, n) = $r; format!("{} used {n}", res!(r)) }} }
        if k == 0 { o.line(group, name, k, "minimum", &mut || format!("{}", min_of(&ctx(), |_: Option<T>| ()))); }
        o.line(group, name, k, "buffer", &mut || res!(T::read_from_buffer_with_ctx(ctx(), data)));
        o.line(group, name, k, "buffer with length", &mut || len!(T::read_with_length_from_buffer_with_ctx(ctx(), data)));
        o.line(group, name, k, "copying", &mut || res!(T::read_from_buffer_copying_data_with_ctx(ctx(), data)));
        o.line(group, name, k, "copying with length", &mut || { let mut c = ctx(); len!(T::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut c, data)) });
        o.line(group, name, k, "own reader", &mut || { let mut p = Plain { data, ctx: ctx() }; let r = T::read_from(&mut p); format!("{} leaving {}", res!(r), p.data.len()) });
        #[cfg(feature = "std")] {
            o.line(group, name, k, "stream", &mut || { let mut d = Drip(data, 1 + k as usize % 9); let r = T::read_from_stream_unbuffered_with_ctx(ctx(), &mut d); format!("{} leaving {}", res!(r), d.0.len()) });
            o.line(group, name, k, "buffered stream", &mut || res!(T::read_from_stream_buffered_with_ctx(ctx(), Drip(data, 1 + k as usize * 7 % 5000))));
            if k % 16 == 0 { std::fs::write("in.bin", data).unwrap(); o.line(group, name, k, "file", &mut || res!(T::read_from_file_with_ctx(ctx(), "in.bin"))); }
        }
}
fn writing<'a, T: Readable<'a, C> + Writable<C>, C: Context<Error = speedy::Error>>(o: &mut Out, group: &str, name: &str, ctx: &dyn Fn() -> C, data: &'a [u8], k: u64, hashed: bool) {
        
        let (v, _) = T::read_with_length_from_buffer_with_ctx(ctx(), data);
        if let Ok(v) = v {
            let mut want = 0;
            o.line(group, name, k, "needs", &mut || match needs(&ctx(), &v) { Ok(n) => { want = n; n.to_string() } Err(e) => err(&e) });
            o.line(group, name, k, "own writer", &mut || { let mut s = Sink(vec![], ctx()); match v.write_to(&mut s) { Ok(()) => bytes(&s.0, hashed), Err(e) => err(&e) } });
            for room in [want, want.saturating_sub(1 + k as usize % 3), want + 3] {
                o.line(group, name, k, &format!("into {}", room as i64 - want as i64), &mut || { let mut b = vec![0xA5; room]; match v.write_to_buffer_with_ctx(ctx(), &mut b) { Ok(()) => bytes(&b, hashed), Err(e) => err(&e) } });
            }
            #[cfg(feature = "alloc")] o.line(group, name, k, "vec", &mut || match v.write_to_vec_with_ctx(ctx()) { Ok(b) => bytes(&b, hashed), Err(e) => err(&e) });
            #[cfg(feature = "std")] {
                o.line(group, name, k, "to stream", &mut || { let mut b = vec![]; match v.write_to_stream_with_ctx(ctx(), &mut b) { Ok(()) => bytes(&b, hashed), Err(e) => err(&e) } });
                if k % 16 == 0 { o.line(group, name, k, "to file", &mut || match v.write_to_file_with_ctx(ctx(), "out.bin") { Ok(()) => bytes(&std::fs::read("out.bin").unwrap(), hashed), Err(e) => err(&e) }); }
            }
        }
}
fn min_of<'a, C: Context, T: Readable<'a, C>>(_: &C, _: fn(Option<T>)) -> usize { T::minimum_bytes_needed() }
fn needs<C: Context, T: Writable<C>>(_: &C, v: &T) -> Result<usize, C::Error> { v.bytes_needed() }
#[repr(C, align(16))] struct Aligned([u8; 16]);
fn aligned(d: &[u8], off: usize, store: &mut Vec<Aligned>) -> usize { store.clear(); store.resize_with(d.len() / 16 + 3, || Aligned([0; 16])); let p = unsafe { std::slice::from_raw_parts_mut(store.as_mut_ptr() as *mut u8, store.len() * 16) }; p[off..off + d.len()].copy_from_slice(d); off }

macro_rules! types {
    ($o:expr, $group:expr, $hashed:expr, $hints:expr; $($t:ty),* $(,)?) => { $( {
        fn one<'a>(o: &mut Out, be: bool, data: &'a [u8], k: u64) { let c = if be { Endianness::BigEndian } else { Endianness::LittleEndian }; reading::<$t, _>(o, $group, stringify!($t), &|| c, data, k, $hashed); writing::<$t, _>(o, $group, stringify!($t), &|| c, data, k, $hashed) }
        run_type($o, stringify!($t), $hints, one);
    } )* };
}
/// Types which are only read.
macro_rules! readable {
    ($o:expr, $group:expr; $($t:ty),* $(,)?) => { $( {
        fn one<'a>(o: &mut Out, be: bool, data: &'a [u8], k: u64) { reading::<$t, _>(o, $group, stringify!($t), &|| if be { Endianness::BigEndian } else { Endianness::LittleEndian }, data, k, false) }
        run_type($o, stringify!($t), &[], one);
    } )* };
}
macro_rules! readable_native {
    ($o:expr, $group:expr; $($t:ty),* $(,)?) => { $( {
        fn one<'a>(o: &mut Out, be: bool, data: &'a [u8], k: u64) { reading::<$t, _>(o, $group, concat!("native ", stringify!($t)), &|| Native {}, data, k, false) }
        run_type($o, stringify!($t), &[], one);
    } )* };
}
macro_rules! native {
    ($o:expr, $group:expr; $($t:ty),* $(,)?) => { $( {
        fn one<'a>(o: &mut Out, be: bool, data: &'a [u8], k: u64) { reading::<$t, _>(o, $group, concat!("native ", stringify!($t)), &|| Native {}, data, k, false); writing::<$t, _>(o, $group, concat!("native ", stringify!($t)), &|| Native {}, data, k, false) }
        run_type($o, stringify!($t), &[], one);
    } )* };
}
fn run_type(o: &mut Out, name: &str, hints: &[&[u8]], one: for<'a> fn(&mut Out, bool, &'a [u8], u64)) {
    let mut store = vec![];
    for k in 0..o.cases {
        if let Some((n, c)) = &o.only { if n != name || *c != k { continue; } }
        let mut r = Rng(hash(name.as_bytes()) ^ k << 20 ^ SEED.load(std::sync::atomic::Ordering::Relaxed) << 44);
        let be = k & 1 == 1;
        let d = input(&mut r, be, hints);
        let off = aligned(&d, [0, 0, 8, 1, 4, 2][r.below(6) as usize], &mut store);
        let p = unsafe { std::slice::from_raw_parts((store.as_ptr() as *const u8).add(off), d.len()) };
        if o.only.is_some() { println!("big endian {be}, input {}", d.iter().map(|x| format!("{x:02x}")).collect::<String>()); }
        one(o, be, p, k);
    }
}
static SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

#[cfg(target_endian = "little")] type Native = LittleEndian;
#[cfg(target_endian = "big")] type Native = speedy::BigEndian;

#[cfg(feature = "derive")] mod derived;

fn main() {
    let av: Vec<String> = std::env::args().collect();
    let path = std::path::absolute(&av[1]).unwrap();
    SEED.store(av[2].parse().unwrap(), std::sync::atomic::Ordering::Relaxed);
    let only = av.get(5).map(|t| (t.clone(), av[6].parse().unwrap()));
    let mut o = Out { w: std::io::BufWriter::new(std::fs::File::create(&path).unwrap()), cases: av[3].parse().unwrap(), only };
    std::env::set_current_dir(&av[4]).unwrap();
    if o.only.is_none() { std::panic::set_hook(Box::new(|_| {})); }
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || { all(&mut o); o.w.flush().unwrap(); }).unwrap().join().unwrap();
}
fn all(o: &mut Out) {
    use std::num::*; use std::ops::{Range, RangeInclusive}; use std::sync::atomic::*; use std::net::*; use std::time::*;
    types! { o, "core", false, &[]; u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, f32, f64, usize, bool, char, (), (u8,), (u8, u16), (u32, bool, char), (u8, u8, u8, u64, i128), (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64),
        [u8; 7], [u16; 3], [u32; 0], [f64; 2], [bool; 3], [char; 2], [[u16; 2]; 3], [Option<u8>; 3], [(u8, u16); 2], Option<u8>, Option<Option<u32>>, Result<u16, bool>, Result<(), u64>, Range<u16>, RangeInclusive<i64>, Range<char>,
        NonZeroU8, NonZeroI16, NonZeroU32, NonZeroI64, NonZeroU64, AtomicU8, AtomicI16, AtomicU32, AtomicI64, AtomicU64, Endianness, Duration, Ipv4Addr, Ipv6Addr, IpAddr, speedy::private::VarInt64,
        &'a str, (u8, &'a str, u16), Option<&'a str>, Probe, (bool, Probe) }
    readable! { o, "core"; &'a [u8], &'a [i8], &'a [u8; 5], &'a [i8; 0], (u8, &'a str, &'a [u8; 2], &'a [u8]), Result<&'a [u8], char> }
    readable_native! { o, "core"; &'a [u16], &'a [i32], &'a [u64], &'a [f64], &'a [u128; 1], &'a [i16; 3], (u8, &'a [u32], u8, &'a [u16]) }
    native! { o, "core"; u32, [u64; 2], (u8, i16, Option<char>) }
    #[cfg(feature = "alloc")] {
        use std::collections::*;
        types! { o, "alloc", false, &[]; String, Box<str>, Cow<'a, str>, Vec<u8>, Vec<i16>, Vec<u32>, Vec<u64>, Vec<f32>, Vec<i128>, Vec<bool>, Vec<char>, Vec<String>, Vec<Vec<u16>>, Vec<Option<u8>>, Vec<(u8, u16)>, Vec<[u16; 2]>, Vec<Duration>, Vec<usize>, Vec<&'a str>,
            Box<u32>, Box<[u8]>, Box<[u64]>, Box<[String]>, Cow<'a, [u8]>, Cow<'a, [u16]>, Cow<'a, [u64]>, Cow<'a, [bool]>, Cow<'a, [String]>, BTreeMap<u8, u16>, BTreeMap<String, Vec<u8>>, BTreeMap<u32, Option<char>>, BTreeSet<u8>, BTreeSet<u32>, BTreeSet<String>, Cow<'a, BTreeMap<u8, u8>>, Cow<'a, BTreeSet<u16>>,
            Option<String>, Result<String, Vec<u8>>, (String, u8, Vec<u16>), [String; 2], Range<String>, Vec<speedy::private::VarInt64>, Vec<IpAddr>, Until<Vec<u16>>, Until<String> }
        types! { o, "alloc written", false, &[]; &'a [u8], &'a [i8], (u8, &'a str, &'a [u8]), Result<&'a [u8], char>, (u16, &'a [u8; 5]) }
        native! { o, "alloc"; (&'a [u16],), (u8, &'a [u32], u8, &'a [u16]), Option<&'a [f64]>, Vec<u16>, Cow<'a, [u32]>, Cow<'a, [f64]>, Vec<&'a [u16]>, String }
    }
    #[cfg(feature = "std")] {
        use std::collections::*;
        types! { o, "std", false, &[]; SystemTime, Vec<SystemTime>, Option<SystemTime> }
        types! { o, "std", true, &[]; HashMap<u8, u16>, HashMap<String, u32>, HashMap<u32, String>, HashSet<u8>, HashSet<u64>, HashSet<String>, Cow<'a, HashMap<u8, u8>>, Cow<'a, HashSet<u16>>, Vec<HashMap<u8, bool>> }
    }
    #[cfg(feature = "derive")] derived::core(o);
    #[cfg(all(feature = "derive", feature = "alloc"))] derived::alloc(o);
    #[cfg(all(feature = "derive", feature = "std"))] derived::std(o);
    #[cfg(feature = "chrono")] types! { o, "chrono", false, &[]; chrono::DateTime<chrono::Utc>, (u8, chrono::DateTime<chrono::Utc>) }
    #[cfg(feature = "glam")] { use glam::*; types! { o, "glam", false, &[]; Vec2, Vec3, Vec3A, Vec4, DVec3, IVec2, UVec4, Quat, DQuat, Mat2, Mat3A, Mat4, DMat3, Affine2, Affine3A, DAffine3, BVec3, [Vec3; 2], Option<Mat3> } }
    #[cfg(feature = "uuid")] types! { o, "uuid", false, &[]; uuid::Uuid, (bool, uuid::Uuid), [uuid::Uuid; 2] }
    #[cfg(feature = "smallvec")] types! { o, "smallvec", false, &[]; smallvec::SmallVec<[u8; 4]>, smallvec::SmallVec<[u32; 2]>, smallvec::SmallVec<[String; 2]>, smallvec::SmallVec<[bool; 8]> }
    #[cfg(feature = "regex")] { #[derive(Debug)] struct Re(String); types! { o, "regex", false, &[b"\x04\0\0\0a.*b", b"\x03\0\0\0(a)", b"\x02\0\0\0(b"]; regex::Regex, (u8, regex::Regex) } }
    #[cfg(feature = "indexmap_v1")] types! { o, "indexmap_v1", false, &[]; indexmap_v1::IndexMap<u8, u16>, indexmap_v1::IndexSet<String>, indexmap_v1::IndexMap<String, u8> }
    #[cfg(feature = "indexmap")] types! { o, "indexmap_v1", false, &[]; indexmap_v1::IndexMap<u8, u16>, indexmap_v1::IndexSet<String>, indexmap_v1::IndexMap<String, u8> }
    #[cfg(feature = "indexmap_v2")] types! { o, "indexmap_v2", false, &[]; indexmap_v2::IndexMap<u8, u16>, indexmap_v2::IndexSet<u32>, indexmap_v2::IndexMap<String, u8> }
}
/// The rest of the input.
#[cfg(feature = "alloc")] #[derive(Debug)] struct Until<T>(T);
#[cfg(feature = "alloc")] impl<'a, C: Context> Readable<'a, C> for Until<Vec<u16>> { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { r.read_vec_until_eof().map(Until) } }
#[cfg(feature = "alloc")] impl<C: Context> Writable<C> for Until<Vec<u16>> { fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { w.write_slice(&self.0) } }
#[cfg(feature = "alloc")] impl<'a, C: Context> Readable<'a, C> for Until<String> { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { let n = r.read_u8()? as usize; let s = r.read_string(n)?; let m: Vec<(u8, bool)> = r.read_key_value_collection(2)?; let c: Cow<[u16]> = r.read_cow(m.len())?; let x: Vec<u32> = r.read_collection(1)?; let e = r.read_cow_until_eof::<u8>()?; Ok(Until(format!("{s}{m:?}{c:?}{x:?}{e:?}"))) } }
#[cfg(feature = "alloc")] impl<C: Context> Writable<C> for Until<String> { fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { self.0.write_to(w) } }

//! Smaller checks of single mechanisms.
use crate::cx::*;
use crate::ops::*;
use crate::sut::*;
use speedy::private::get_error_kind;
use speedy::{IsEof, Readable, Writable};
use std::borrow::Cow;
use std::io;

/// Borrowing reads of strings and bytes must not allocate at all.
pub fn zero_copy_allocs(cx: &mut Cx) {
    for k in 0..(300 * cx.a.work / 100).max(5) {
        let mut r = cx.rng(&[1515, k, cx.a.shard as u64]);
        let n = match r.below(4) { 0 => r.us(4), 1 => r.us(100), _ => r.us(9000) };
        let body: Vec<u8> = (0..n).map(|_| (32 + r.below(95)) as u8).collect();
        let mut d = (n as u32).to_le_bytes().to_vec();
        d.extend_from_slice(&body);
        let p = Placed::new(&d, r.us(16));
        macro_rules! one { ($t:ty, $from:ident) => {
            let (v, m) = measured(1 << 30, || call(|| <$t>::$from(&p)));
            match v {
                Ok(Ok(v)) => {
                    let b: &[u8] = AsRef::<[u8]>::as_ref(&*v);
                    if m.count > 0 { cx.viol(concat!("C15|allocates|", stringify!($t)), format!("{} of {} allocates {} times", stringify!($t), hex(&p), m.count), &[("data", hexfull(&p))]); }
                    if b.len() > 0 && b.as_ptr() != p[4..].as_ptr() || b != &body[..] { cx.viol(concat!("C15|elsewhere|", stringify!($t)), format!("{} of {} is not the part of the buffer which encodes it", stringify!($t), hex(&p)), &[("data", hexfull(&p))]); }
                    cx.count("allocation-free reads", 1);
                }
                _ => cx.viol(concat!("C15|fails|", stringify!($t)), format!("{} of {} fails", stringify!($t), hex(&p)), &[("data", hexfull(&p))]),
            }
        } }
        one!(&str, read_from_buffer);
        one!(&[u8], read_from_buffer);
        one!(Cow<str>, read_from_buffer);
        one!(Cow<[u8]>, read_from_buffer);
        cx.eval(crate::rng::hash_bytes(15, &d), n > 0);
    }
}

/// Bytes fixed by the documentation, transcribed by hand.
pub fn golden(cx: &mut Cx) {
    use speedy::Endianness::{self, *};
    if cx.a.shard != 0 { return; }
    fn one<T: Writable<Endianness>>(cx: &mut Cx, what: &str, v: T, le: &[u8], be: &[u8]) {
        for (e, want) in [(LittleEndian, le), (BigEndian, be)] {
            let got = call(|| v.write_to_vec_with_ctx(e)).ok().and_then(|r| r.ok());
            cx.count("documented encodings", 1);
            if got.as_deref() != Some(want) { cx.viol(format!("C02|golden|{what}"), format!("{what} in {e:?} is written as {:?} instead of {}", got.map(|g| hex(&g)), hex(want)), &[]); }
        }
    }
    one(cx, "u16", 0x3344u16, &[0x44, 0x33], &[0x33, 0x44]);
    one(cx, "i16", -2i16, &[0xFE, 0xFF], &[0xFF, 0xFE]);
    one(cx, "u32", 0x01020304u32, &[4, 3, 2, 1], &[1, 2, 3, 4]);
    one(cx, "u64", 0x0102030405060708u64, &[8, 7, 6, 5, 4, 3, 2, 1], &[1, 2, 3, 4, 5, 6, 7, 8]);
    one(cx, "f32", 1.0f32, &[0, 0, 0x80, 0x3F], &[0x3F, 0x80, 0, 0]);
    one(cx, "f64", -2.0f64, &[0, 0, 0, 0, 0, 0, 0, 0xC0], &[0xC0, 0, 0, 0, 0, 0, 0, 0]);
    one(cx, "bool", true, &[1], &[1]);
    one(cx, "char", 'é', &[0xE9, 0, 0, 0], &[0, 0, 0, 0xE9]);
    one(cx, "str", "ab", &[2, 0, 0, 0, b'a', b'b'], &[0, 0, 0, 2, b'a', b'b']);
    one(cx, "Vec<u16>", vec![1u16, 2], &[2, 0, 0, 0, 1, 0, 2, 0], &[0, 0, 0, 2, 0, 1, 0, 2]);
    one(cx, "Option", Some(0x1234u16), &[1, 0x34, 0x12], &[1, 0x12, 0x34]);
    one(cx, "None", None::<u16>, &[0], &[0]);
    one(cx, "Ok", Ok::<u8, u16>(7), &[1, 7], &[1, 7]);
    one(cx, "Err", Err::<u8, u16>(7), &[0, 7, 0], &[0, 0, 7]);
    one(cx, "tuple", (1u8, 2u16, true), &[1, 2, 0, 1], &[1, 0, 2, 1]);
    one(cx, "array", [1u16, 2], &[1, 0, 2, 0], &[0, 1, 0, 2]);
    one(cx, "range", 1u16..2, &[1, 0, 2, 0], &[0, 1, 0, 2]);
    one(cx, "usize", 5usize, &[5, 0, 0, 0, 0, 0, 0, 0], &[0, 0, 0, 0, 0, 0, 0, 5]);
    one(cx, "Ipv4Addr", std::net::Ipv4Addr::new(127, 0, 0, 1), &[1, 0, 0, 127], &[127, 0, 0, 1]);
    one(cx, "Duration", std::time::Duration::new(1, 2), &[1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0], &[0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 2]);
    one(cx, "varint 128", speedy::private::VarInt64::from(128u64), &[0x80, 0x80], &[0x80, 0x80]);
    one(cx, "BTreeMap", std::collections::BTreeMap::from([(1u8, 2u16)]), &[1, 0, 0, 0, 1, 2, 0], &[0, 0, 0, 1, 1, 0, 2]);
    one(cx, "()", (), &[], &[]);
}

/// Errors made without any input.
pub fn error_table(cx: &mut Cx) {
    if cx.a.shard != 0 { return; }
    use crate::sut::{fault, is_fault, FAULTS};
    use std::error::Error as _;
    struct Failing(io::ErrorKind, u64);
    impl io::Read for Failing { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Err(fault(self.0, self.1)) } }
    impl io::Write for Failing { fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(fault(self.0, self.1)) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
    for k in FAULTS.iter().copied().chain([io::ErrorKind::UnexpectedEof]) {
        for (form, way) in (0..4u64).flat_map(|f| (0..5).map(move |w| (f, w))) {
            let seed = form + 4 * way;
            let s = || Failing(k, seed);
            let e = match way { 0 => u8::read_from_stream_unbuffered(s()).unwrap_err(), 1 => u64::read_from_stream_buffered(s()).unwrap_err(), 2 => Vec::<u16>::read_from_stream_buffered(s()).unwrap_err(), 3 => 7u8.write_to_stream(s()).unwrap_err(), _ => vec![String::new()].write_to_stream(s()).unwrap_err() };
            if e.is_eof() != (k == io::ErrorKind::UnexpectedEof) { cx.viol("C22|table|wrap", format!("wrapped {k:?}: is_eof {}", e.is_eof()), &[]); }
            if form % 2 == 1 && !e.to_string().contains("injected fault") || e.to_string().is_empty() { cx.viol("C22|table|text", format!("wrapped {k:?} reads {e}"), &[]); }
            if !e.source().and_then(|x| x.downcast_ref::<io::Error>()).map_or(false, |x| is_fault(x, k, seed)) { cx.viol("C22|table|source", format!("wrapped {k:?} has the source {:?}", e.source()), &[]); }
            let back: io::Error = e.into();
            if !is_fault(&back, k, seed) { cx.viol("C22|table|back", format!("{:?} comes back as {back:?}", fault(k, seed)), &[]); }
            cx.count("errors made directly", 1);
        }
    }
    let e = speedy::Error::custom("my words");
    if e.is_eof() || !e.to_string().contains("my words") { cx.viol("C22|table|custom", format!("custom error: {e}, is_eof {}", e.is_eof()), &[]); }
    // every error there is, from real calls
    let mut small = [0u8; 1];
    let v: Vec<(&str, speedy::Error, bool)> = vec![
        ("small input", u32::read_from_buffer(&[0]).unwrap_err(), false),
        ("small output", 7u32.write_to_buffer(&mut small).unwrap_err(), false),
        ("char", char::read_from_buffer(&[0, 0xD8, 0, 0]).unwrap_err(), false),
        ("utf-8", String::read_from_buffer(&[1, 0, 0, 0, 0xFF]).unwrap_err(), false),
        ("zero", std::num::NonZeroU8::read_from_buffer(&[0]).unwrap_err(), false),
        ("end", String::read_from_buffer(&[1, 0, 0, 0]).unwrap_err(), true),
        ("end of stream", u32::read_from_stream_unbuffered(&[0u8, 1][..]).unwrap_err(), true),
        ("time", std::time::SystemTime::UNIX_EPOCH.checked_sub(std::time::Duration::new(5, 0)).unwrap().write_to_vec().unwrap_err(), false),
    ];
    for (what, e, eof) in v {
        if e.is_eof() != eof { cx.viol(format!("C22|table|{what}"), format!("{what}: {:?} is_eof {}", get_error_kind(&e), e.is_eof()), &[]); }
        cx.count("errors made directly", 1);
    }
}

#[derive(Readable, Writable, Debug, PartialEq)] struct DefaultFirst { #[speedy(default_on_eof)] a: u16, b: u8 }
#[derive(Readable, Writable, Debug, PartialEq)] struct DefaultChars { #[speedy(default_on_eof)] v: Vec<char> }
/// Divergences on record: see known_findings.txt.
pub fn default_on_eof_probes(cx: &mut Cx, id: &str) {
    if cx.a.shard != 0 { return; }
    macro_rules! both { ($t:ty, $d:expr) => { call(|| (<$t>::read_from_buffer_copying_data($d).map_err(|_| ()), <$t>::read_from_stream_unbuffered(&$d[..]).map_err(|_| ()))).ok() } }
    let d: &[u8] = &[1];
    if let Some((b, s)) = both!(DefaultFirst, d) {
        if id == "C04" && b.is_ok() != s.is_ok() { cx.viol("C04|default_on_eof before other fields", format!("struct {{ #[default_on_eof] a: u16, b: u8 }} from 01: a buffer gives {b:?}, a stream {s:?}"), &[("data", hexfull(d))]); }
        if id == "C11" && (b.is_ok() || s.is_ok()) { cx.viol("C11|default_on_eof before other fields", format!("struct {{ #[default_on_eof] a: u16, b: u8 }} from 01, with no byte of b left: a buffer gives {b:?}, a stream {s:?}"), &[("data", hexfull(d))]); }
    }
    let d: &[u8] = &[2, 0, 0, 0, 0, 0xD8, 0, 0];
    if let Some((b, s)) = both!(DefaultChars, d) {
        if id == "C04" && b.is_ok() != s.is_ok() { cx.viol("C04|default_on_eof of fallible elements", format!("struct {{ #[default_on_eof] v: Vec<char> }} from {}, a length beyond the end and a bad char: a buffer gives {b:?}, a stream {s:?}", hex(d)), &[("data", hexfull(d))]); }
    }
    cx.count("recorded divergences probed", 1);
}

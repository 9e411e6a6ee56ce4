//! Checks of what writing does with any value.
use super::read::{run_file, run_stream, run_way, Ran};
use crate::cx::*;
use crate::ops::*;
use crate::rng::*;
use crate::sut::*;

pub(super) struct VCase<'c> { pub i: usize, pub op: &'c dyn Ops, pub be: bool, pub r: Rng, pub case: String, pub vseed: u64, pub budget: i64, pub flags: u32 }
impl<'c> VCase<'c> {
    pub fn rep(&self, how: &str) -> Vec<(&'static str, String)> {
        vec![("type", self.op.name().to_string()), ("ctx", self.op.ctx().to_string()), ("big_endian", self.be.to_string()), ("how", how.to_string()), ("value_seed", self.vseed.to_string()), ("budget", self.budget.to_string()), ("flags", self.flags.to_string())]
    }
}
pub(super) fn each_value(cx: &mut Cx, per_type: u64, flags: u32, mut f: impl FnMut(&mut Cx, &mut VCase, &dyn Val)) {
    let all = crate::zoo::all();
    let mine = cx.ops(&all);
    for round in 0..8u64 {
        for &i in &mine {
            let op = &*all[i];
            let mut r = cx.rng(&[i as u64, round]);
            for _ in 0..(per_type * cx.a.work / 800).max(1) {
                let be = if op.supports(true) && op.supports(false) { r.bool() } else { op.supports(true) };
                let flags = if r.one_in(50) { flags } else { flags & !HUGE };
                let budget = if flags & HUGE != 0 { 200_000 } else { budget(&mut r) };
                let vseed = r.u64();
                let case = format!("{} [{}] be={be} value {vseed}/{budget}", op.name(), op.ctx());
                let mut c = VCase { i, op, be, r: Rng::new(r.u64()), case, vseed, budget, flags };
                about_to(&c.case.clone(), &[]);
                let text = c.case.clone();
                about_to(&text, &[]);
                op.with_value(Rng::new(vseed), budget, flags, &mut |v| f(cx, &mut c, v));
                about_to("", &[]);
            }
            if cx.late() { return; }
        }
    }
}
const SINKS: [&str; 6] = ["vec", "vec (mutable ctx)", "buffer", "buffer (mutable ctx)", "stream", "file"];
/// Everything one sink was given, or the error.
pub(super) fn sink(cx: &Cx, c: &mut VCase, v: &dyn Val, k: usize, n: usize) -> W<Vec<u8>> {
    v.dflt(c.r.bool());
    match k {
        0 => v.to_vec(c.be),
        1 => v.to_vec_mut(c.be),
        2 | 3 => {
            let mut b = vec![0x5A; n];
            let r = if k == 2 { v.to_buf(c.be, &mut b) } else { v.to_buf_mut(c.be, &mut b) };
            r.map(|r| r.map(|_| b))
        }
        4 => {
            let mut s = SimWrite::new(Plan::random(&mut c.r));
            v.to_stream(c.be, &mut s).map(|r| r.map(|_| s.out))
        }
        _ => {
            let p = cx.scratch("out.bin");
            if c.r.bool() { let _ = std::fs::remove_file(&p); } else { std::fs::write(&p, vec![0xEE; n + 100]).unwrap(); }
            v.to_file(c.be, &p).map(|r| r.map(|_| std::fs::read(&p).unwrap()))
        }
    }
}
fn few(c: &mut VCase) -> usize { if cfg!(miri) || !c.r.one_in(6) { 5 } else { 6 } }
fn show(r: &W<Vec<u8>>) -> String {
    match r { Ok(Ok(b)) => hex(b), Ok(Err(e)) => format!("error {:?}", speedy::private::get_error_kind(e)), Err(m) => format!("panic: {m}") }
}

/// C01: whatever is written reads back as the value, however either is done.
pub fn c01(cx: &mut Cx) {
    each_value(cx, 330, PLAIN | HUGE, |cx, c, v| {
        let sig = |k: &str| format!("C01|{}|{}|{k}", c.op.name(), c.op.ctx());
        let want_wire = v.wire(c.be);
        if want_wire.bad.is_some() { cx.count("unwritable values passed over", 1); return; }
        let expect = v.expect();
        let s = c.op.shape();
        let k = c.r.us(if cfg!(miri) { 5 } else { 6 });
        let k = if k == 5 && !c.r.one_in(3) { 0 } else { k };
        let bytes = match sink(cx, c, v, k, want_wire.out.len()) {
            Ok(Ok(b)) => b,
            r => { cx.viol(sig("write"), format!("{}: writing to a {} fails: {}", c.case, SINKS[k], show(&r)), &c.rep(SINKS[k])); return }
        };
        cx.count(&format!("written to {}", SINKS[k]), 1);
        // somewhere it is aligned as borrowed parts need
        let mut p = Placed::new(&bytes, 0);
        if s.borrow && c.op.refdec(c.be, true, &p).invalid() {
            for off in 1..16 { p = Placed::new(&bytes, off); if !c.op.refdec(c.be, true, &p).invalid() { break; } }
            if c.op.refdec(c.be, true, &p).invalid() { cx.count("no place aligns every part", 1); return; }
        }
        let dflt = c.r.bool();
        let mut rs: Vec<Ran> = WAYS.iter().filter(|w| !s.borrow || w.borrows()).map(|&w| run_way(c.op, w, dflt, c.be, &p)).collect();
        if !s.borrow {
            for b in [false, true] { let plan = Plan::random(&mut c.r); rs.push(run_stream(c.op, b, dflt, c.be, &p, plan)); }
            if k == 5 { rs.push(Ran { how: "file".into(), borrows: false, out: c.op.read_file(dflt, c.be, &cx.scratch("out.bin")), pos: None, stream: None }); }
            else if c.r.one_in(8) && !cfg!(miri) { rs.push(run_file(cx, c.op, dflt, c.be, &p)); }
        }
        cx.count("read back", rs.len() as u64);
        for x in &rs {
            match &x.out {
                Out::Ok(g) if g.invalid.is_none() && g.canon == expect => {
                    if g.used.map_or(false, |u| u != bytes.len()) { cx.viol(sig("length"), format!("{}: {} of {} consumes {:?} of {} bytes", c.case, x.how, hex(&bytes), g.used, bytes.len()), &c.rep(&x.how)); }
                    if x.how.starts_with("unbuffered") && x.pos != Some(bytes.len()) { cx.viol(sig("length"), format!("{}: {} of {} leaves the stream at {:?} of {}", c.case, x.how, hex(&bytes), x.pos, bytes.len()), &c.rep(&x.how)); }
                }
                o => cx.viol(sig("value"), format!("{}: written as {} but {} gives {o:?} instead of {}", c.case, hex(&bytes), x.how, hex(&expect)), &c.rep(&x.how)),
            }
        }
        cx.eval(key(c.i, c.be, &bytes), !bytes.is_empty());
        cx.sample(|| format!("{} -> {} -> read back {} ways", c.case, hex(&bytes), rs.len()));
    });
}

/// C02: the bytes are those of the reference encoder, into every sink.
pub fn c02(cx: &mut Cx) {
    each_value(cx, 700, PLAIN | HUGE, |cx, c, v| {
        let sig = |k: &str| format!("C02|{}|{}|{k}", c.op.name(), c.op.ctx());
        let want = v.wire(c.be);
        if want.bad.is_some() { return; }
        for k in 0..few(c) {
            let got = sink(cx, c, v, k, want.out.len());
            cx.count(&format!("written to {}", SINKS[k]), 1);
            if !matches!(&got, Ok(Ok(b)) if *b == want.out) { cx.viol(sig(SINKS[k]), format!("{}: written to a {} as {} instead of {}", c.case, SINKS[k], show(&got), hex(&want.out)), &c.rep(SINKS[k])); }
        }
        cx.count("bytes compared", want.out.len() as u64);
        cx.eval(key(c.i, c.be, &want.out), !want.out.is_empty());
        cx.sample(|| format!("{} -> {}", c.case, hex(&want.out)));
    });
    if !crate::zoo::generated() { super::misc::golden(cx); }
}

/// C03: sizes are exact; fixed buffers are filled exactly or refused; unwritable values are refused.
/// Slices too long for their length prefix, most of them of elements which take no memory.
pub fn huge(cx: &mut Cx) {
    use speedy::{Endianness, Readable, Writable};
    use std::borrow::Cow;
    #[derive(Readable, Writable, Clone)] struct Nil;
    #[derive(Readable, Writable, Clone)] struct NilTuple((), [u16; 0]);
    #[derive(Readable, Writable)] struct Around<'a> { a: u8, v: Vec<Nil>, o: Option<Cow<'a, [()]>> }
    struct Zeros(*mut u8, std::alloc::Layout);
    impl Drop for Zeros { fn drop(&mut self) { unsafe { std::alloc::dealloc(self.0, self.1) } } }
    fn one<T: Writable<Endianness>>(cx: &mut Cx, name: &str, v: &T, first: usize) {
        for (be, k) in [(false, 0), (true, 1), (false, 2), (true, 3)] {
            let case = format!("{name} be={be}");
            about_to(&case, &[]);
            let e = if be { Endianness::BigEndian } else { Endianness::LittleEndian };
            let mut sink = vec![];
            let got = call(|| match k {
                0 => Writable::<Endianness>::bytes_needed(v).map(|n| n as u64),
                1 => { let mut b = [0u8; 64]; v.write_to_buffer_with_ctx(e, &mut b).map(|_| 0) }
                2 => v.write_to_vec_with_ctx(e).map(|b| b.len() as u64),
                _ => v.write_to_stream_with_ctx(e, &mut sink).map(|_| 0),
            });
            let way = ["bytes_needed", "a buffer", "write_to_vec", "a stream"][k];
            let bad = match got { Ok(Err(_)) => sink.len() > first, Ok(Ok(_)) => true, Err(_) => true };
            if bad { cx.viol(format!("{}|{name}|too long", cx.a.prop), format!("{name}, whose length does not fit into 32 bits: {way} gives {} and delivers {} bytes", match got { Ok(Ok(n)) => format!("success ({n})"), Ok(Err(e)) => format!("error {e}"), Err(Caught::Panic(m)) => format!("panic {m}"), Err(_) => "?".into() }, sink.len()), &[]); }
            cx.eval(hash_bytes(k as u64, name.as_bytes()), true);
            cx.count("writes of slices longer than their length prefix can say", 1);
        }
    }
    for n in [usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, ((1u64 << 32) + 7) as usize, (1u64 << 32) as usize] {
        one(cx, &format!("Vec<()> of {n:#x}"), &vec![(); n], 0);
        one(cx, &format!("Box<[[u8; 0]]> of {n:#x}"), &vec![[0u8; 0]; n].into_boxed_slice(), 0);
        let units = vec![(); n];
        one(cx, &format!("&[()] of {n:#x}"), &&units[..], 0);
        one(cx, &format!("Cow<[()]> of {n:#x}"), &Cow::Borrowed(&units[..]), 0);
        let mut nil: Vec<Nil> = Vec::new();
        unsafe { nil.set_len(n) };
        one(cx, &format!("Some of {n:#x} unit structs"), &Some(nil), 1);
        let mut nil: Vec<NilTuple> = Vec::new();
        unsafe { nil.set_len(n) };
        one(cx, &format!("(u8, Vec<struct>) of {n:#x}"), &(3u8, nil), 1);
        let mut nil: Vec<Nil> = Vec::new();
        unsafe { nil.set_len(n) };
        one(cx, &format!("struct around {n:#x}"), &Around { a: 1, v: nil, o: Some(Cow::Borrowed(&units[..])) }, 1);
        // needs_drop is false for all of them: nothing walks the elements
    }
    // memory which is never touched
    if cx.a.prop == "C03" && !cfg!(miri) {
        let n = (1usize << 32) + 5;
        let layout = std::alloc::Layout::from_size_align(n, 8).unwrap();
        let p = unsafe { std::alloc::alloc_zeroed(layout) };
        if !p.is_null() {
            let z = Zeros(p, layout);
            let b: &[u8] = unsafe { std::slice::from_raw_parts(z.0, n) };
            struct Count(u64);
            impl std::io::Write for Count { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += b.len() as u64; Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
            let text = unsafe { std::str::from_utf8_unchecked(b) };
            for (name, f) in [("&[u8]", &(|c: &mut Count| b.write_to_stream_with_ctx(Endianness::LittleEndian, c)) as &dyn Fn(&mut Count) -> Result<(), speedy::Error>), ("&str", &|c: &mut Count| text.write_to_stream_with_ctx(Endianness::BigEndian, c)), ("Cow<[u8]>", &|c: &mut Count| Cow::Borrowed(b).write_to_stream_with_ctx(Endianness::BigEndian, c))] {
                let mut c = Count(0);
                let got = call(|| f(&mut c));
                if !matches!(got, Ok(Err(_))) || c.0 != 0 { cx.viol(format!("C03|{name}|too long"), format!("{name} of 4 GiB and 5 bytes: {} bytes delivered, success {}", c.0, matches!(got, Ok(Ok(())))), &[]); }
                cx.count("writes of slices longer than their length prefix can say", 1);
                cx.eval(hash_bytes(9, name.as_bytes()), true);
            }
        }
    }
}
pub fn c03(cx: &mut Cx) {
    if cx.a.shard == 0 && !crate::zoo::generated() { huge(cx); }
    each_value(cx, 600, HUGE, |cx, c, v| {
        let sig = |k: &str| format!("C03|{}|{}|{k}", c.op.name(), c.op.ctx());
        let want = v.wire(c.be);
        let n = want.out.len();
        let need = v.bytes_needed(c.be);
        if let Some(why) = want.bad {
            cx.count(&format!("unwritable: {why}"), 1);
            if let Err(m) = &need { cx.viol(sig("unwritable"), format!("{}: bytes_needed of an unwritable value ({why}) panics: {m}", c.case), &c.rep("bytes_needed")); }
            for k in 0..few(c) {
                let got = sink(cx, c, v, k, n + 300);
                if !matches!(got, Ok(Err(_))) { cx.viol(sig("unwritable"), format!("{}: writing an unwritable value ({why}) to a {} gives {}", c.case, SINKS[k], show(&got)), &c.rep(SINKS[k])); }
            }
            cx.eval(hash_bytes(key(c.i, c.be, &want.out), b"bad"), true);
            return;
        }
        match &need {
            Ok(Ok(m)) if *m == n => {}
            o => cx.viol(sig("needed"), format!("{}: bytes_needed is {o:?} but the encoding {} has {n} bytes", c.case, hex(&want.out)), &c.rep("bytes_needed")),
        }
        let mut sizes = vec![n, n + 1 + c.r.us(20)];
        if n > 0 { sizes.push(n - 1); sizes.push(c.r.us(n)); sizes.push(0); }
        for size in sizes {
            let (pre, post) = (c.r.us(17), 24);
            let mut guard: Vec<u8> = (0..pre + size + post).map(|_| c.r.u64() as u8).collect();
            let before = guard.clone();
            v.dflt(c.r.bool());
            let mutable = c.r.bool();
            let got = if mutable { v.to_buf_mut(c.be, &mut guard[pre..pre + size]) } else { v.to_buf(c.be, &mut guard[pre..pre + size]) };
            let how = format!("buffer of {size} bytes{}", if mutable { " (mutable ctx)" } else { "" });
            let outside = guard[..pre] != before[..pre] || guard[pre + size..] != before[pre + size..];
            if outside { cx.viol(sig("outside"), format!("{}: writing {} to a {how} changes memory around it", c.case, hex(&want.out)), &c.rep(&how)); }
            match got {
                Ok(Ok(())) if size >= n => {
                    cx.count("fitting buffers", 1);
                    if guard[pre..pre + n] != want.out[..] { cx.viol(sig("content"), format!("{}: {how} holds {} instead of {}", c.case, hex(&guard[pre..pre + n]), hex(&want.out)), &c.rep(&how)); }
                    if guard[pre + n..pre + size] != before[pre + n..pre + size] { cx.viol(sig("rest"), format!("{}: writing {n} bytes to a {how} changes what is behind them", c.case), &c.rep(&how)); }
                }
                Ok(Err(_)) if size < n => cx.count("small buffers refused", 1),
                o => cx.viol(sig("verdict"), format!("{}: writing {n} bytes to a {how} gives {o:?}", c.case), &c.rep(&how)),
            }
        }
        // the other sinks emit as much as was announced
        for k in [0, 1, 4, 5] {
            if k == 5 && (cfg!(miri) || !c.r.one_in(10)) { continue; }
            let got = sink(cx, c, v, k, n);
            if !matches!(&got, Ok(Ok(b)) if b.len() == n) { cx.viol(sig("emitted"), format!("{}: bytes_needed is {need:?} but a {} receives {}", c.case, SINKS[k], show(&got)), &c.rep(SINKS[k])); }
        }
        cx.eval(key(c.i, c.be, &want.out), n > 0);
        cx.sample(|| format!("{} needs {n} bytes: {}", c.case, hex(&want.out)));
    });
}

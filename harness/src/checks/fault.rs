//! C10: faults of streams and files at every position, and I/O which is merely awkward.
use super::write::{each_value, VCase};
use crate::cx::*;
use crate::ops::*;
use crate::rng::*;
use crate::sut::*;
use speedy::private::{get_error_kind, ErrorKind};
use speedy::{Error, Readable, Writable};
use std::io::{self, Read, Write};

pub fn io_kind(e: &Error) -> Option<io::ErrorKind> { match get_error_kind(e) { ErrorKind::IoError(e) => Some(e.kind()), _ => None } }
fn cuts(r: &mut Rng, n: usize) -> Vec<usize> {
    if n <= 40 { return (0..=n).collect(); }
    let mut v: Vec<usize> = (0..6).chain(n - 5..=n).collect();
    for b in [1024, 4096, 8191, 8192, 8193, 16384] { if b < n { v.push(b) } }
    for _ in 0..8 { v.push(r.us(n)); }
    v.sort(); v.dedup();
    v
}
fn reads(cx: &mut Cx, c: &mut VCase, wire: &[u8], want: &[u8]) {
    let (op, be) = (c.op, c.be);
    if op.shape().borrow { return; }
    let case = c.case.clone();
    for at in cuts(&mut c.r, wire.len()) {
        for buffered in [false, true] {
            let kind = *c.r.pick(&FAULTS);
            let mut plan = Plan::random(&mut c.r);
            plan.fault = Some((at, kind));
            plan.times = *c.r.pick(&[1, 2, 64]);
            let how = format!("{} with {plan:?}", if buffered { "buffered stream" } else { "unbuffered stream" });
            let mut s = SimRead::new(wire, plan);
            let dflt = c.r.bool();
            let out = op.read_stream(buffered, dflt, be, &mut s);
            let mut rep = c.rep(&how); rep.push(("data", hexfull(wire)));
            cx.count(if s.faulted { "reads hit by a fault" } else { "reads done before the fault" }, 1);
            cx.count("interrupted calls while reading", s.interrupts);
            cx.eval(hash_bytes((c.i as u64) << 8 | (at as u64) << 24 | buffered as u64, wire), at < wire.len());
            let sig = |k: &str| format!("C10|{}|{}|{k}", op.name(), op.ctx());
            if s.pos > at { cx.viol(sig("goes on"), format!("{case}: {how} goes on reading to byte {} after the failure", s.pos), &rep) }
            match (s.faulted, out) {
                (true, Out::Err(e)) => if io_kind(&e) != Some(kind) { cx.viol(sig("kind"), format!("{case}: {how} failed with {kind:?} at {at}, reported as {:?}", get_error_kind(&e)), &rep) },
                (true, Out::Ok(_)) => cx.viol(sig("swallowed"), format!("{case}: the failure of {how} at byte {at} of {} is swallowed", hex(wire)), &rep),
                (false, Out::Ok(g)) => { if at < wire.len() && !op.shape().open { cx.viol(sig("early"), format!("{case}: {how}: read succeeds with only {at} of {} bytes", wire.len()), &rep) } else if g.canon != want { cx.viol(sig("value"), format!("{case}: {how} gives another value: {} for {}", hex(&g.canon), hex(want)), &rep) } }
                (false, Out::Err(e)) => cx.viol(sig("fails"), format!("{case}: {how} fails with {:?} though the stream did not", get_error_kind(&e)), &rep),
                (_, Out::Panic(m)) => cx.viol(sig("panic"), format!("{case}: {how} panics: {m}"), &rep),
            }
        }
    }
    // awkward but working streams
    for _ in 0..2 {
        for buffered in [false, true] {
            let mut plan = Plan::random(&mut c.r);
            if c.r.bool() { plan.interrupt = 1 + c.r.below(3); }
            let how = format!("{} with {plan:?}", if buffered { "buffered stream" } else { "unbuffered stream" });
            let mut s = SimRead::new(wire, plan);
            let out = op.read_stream(buffered, false, be, &mut s);
            cx.count("interrupted calls while reading", s.interrupts);
            cx.count("reads from awkward streams", 1);
            match out { Out::Ok(g) if g.canon == want => {} o => cx.viol(format!("C10|{}|{}|benign", op.name(), op.ctx()), format!("{case}: {how}, which never fails, gives {o:?}"), &c.rep(&how)) }
        }
    }
}
fn writes(cx: &mut Cx, c: &mut VCase, v: &dyn Val, wire: &[u8]) {
    let case = c.case.clone();
    let (op, be) = (c.op, c.be);
    let sig = |k: &str| format!("C10|{}|{}|write {k}", op.name(), op.ctx());
    for at in cuts(&mut c.r, wire.len()) {
        let kind = *c.r.pick(&FAULTS);
        let mut plan = Plan::random(&mut c.r);
        plan.fault = Some((at, kind));
        plan.times = *c.r.pick(&[1, 2, 64]);
        let how = format!("write to a stream with {plan:?}");
        let mut s = SimWrite::new(plan);
        v.dflt(c.r.bool());
        let r = v.to_stream(be, &mut s);
        cx.count(if s.faulted { "writes hit by a fault" } else { "writes done before the fault" }, 1);
        cx.count("interrupted calls while writing", s.interrupts);
        cx.eval(hash_bytes((c.i as u64) << 8 | (at as u64) << 24 | 2, wire), at < wire.len());
        let rep = c.rep(&how);
        match r {
            Ok(Err(e)) if s.faulted => if io_kind(&e) != Some(kind) { cx.viol(sig("kind"), format!("{case}: {how} failed with {kind:?}, reported as {:?}", get_error_kind(&e)), &rep) },
            Ok(Err(e)) => cx.viol(sig("fails"), format!("{case}: {how} fails with {:?} though the stream did not", get_error_kind(&e)), &rep),
            Ok(Ok(())) if s.faulted || at < wire.len() => cx.viol(sig("swallowed"), format!("{case}: the failure of {how} is swallowed"), &rep),
            Ok(Ok(())) => {}
            Err(m) => cx.viol(sig("panic"), format!("{case}: {how} panics: {m}"), &rep),
        }
        let n = at.min(wire.len());
        if s.out.len() > n || s.out != wire[..s.out.len()] || (s.faulted && s.out.len() != n) || (!s.faulted && s.out.len() != wire.len()) { cx.viol(sig("prefix"), format!("{case}: {how}: the stream was given {} instead of the first {n} bytes of {}", hex(&s.out), hex(wire)), &rep); }
    }
    for _ in 0..2 {
        let mut plan = Plan::random(&mut c.r);
        if c.r.bool() { plan.interrupt = 1 + c.r.below(3); }
        let how = format!("write to a stream with {plan:?}");
        let mut s = SimWrite::new(plan);
        let r = v.to_stream(be, &mut s);
        cx.count("interrupted calls while writing", s.interrupts);
        cx.count("writes to awkward streams", 1);
        if !matches!(r, Ok(Ok(()))) || s.out != wire { cx.viol(sig("benign"), format!("{case}: {how}, which never fails, gives {} {}", match r { Ok(Ok(())) => "Ok".into(), Ok(Err(e)) => format!("{:?}", get_error_kind(&e)), Err(m) => m }, hex(&s.out)), &c.rep(&how)); }
    }
}
extern "C" { fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32; fn signal(n: i32, h: usize) -> usize; }
/// Files which run out of room, at once or part-way.
fn files(cx: &mut Cx, c: &mut VCase, v: &dyn Val, wire: &[u8]) {
    let case = c.case.clone();
    let sig = |k: &str| format!("C10|{}|{}|file {k}", c.op.name(), c.op.ctx());
    let full = std::path::Path::new("/dev/full");
    if full.exists() {
        match v.to_file(c.be, full) {
            Ok(Ok(())) if !wire.is_empty() => cx.viol(sig("full"), format!("{case}: writing {} bytes to /dev/full succeeds", wire.len()), &c.rep("/dev/full")),
            Ok(Err(e)) if wire.is_empty() || io_kind(&e) != Some(io::ErrorKind::StorageFull) => cx.viol(sig("full kind"), format!("{case}: writing {} bytes to /dev/full fails with {:?}", wire.len(), get_error_kind(&e)), &c.rep("/dev/full")),
            Err(m) => cx.viol(sig("panic"), format!("{case}: writing to /dev/full panics: {m}"), &c.rep("/dev/full")),
            _ => {}
        }
        cx.count("writes to a full device", 1);
    }
    let p = cx.scratch("limited.bin");
    let n = wire.len();
    let lim = match c.r.below(4) { 0 => 0, 1 => n, 2 => n.saturating_sub(1), _ => c.r.us(n + 1) };
    let _ = std::fs::remove_file(&p);
    let r = unsafe {
        let mut old = [0u64; 2];
        getrlimit(1, &mut old);
        setrlimit(1, &[lim as u64, old[1]]);
        let r = v.to_file(c.be, &p);
        setrlimit(1, &old);
        r
    };
    let got = std::fs::read(&p).unwrap_or_default();
    cx.count("writes to a file which may not grow enough", 1);
    match r {
        Ok(Ok(())) if lim < n => cx.viol(sig("limit"), format!("{case}: writing {n} bytes to a file limited to {lim} succeeds"), &c.rep("limited file")),
        Ok(Err(e)) if lim >= n => cx.viol(sig("limit fails"), format!("{case}: writing {n} bytes to a file limited to {lim} fails with {:?}", get_error_kind(&e)), &c.rep("limited file")),
        Ok(Err(e)) if io_kind(&e) != Some(io::ErrorKind::FileTooLarge) => cx.viol(sig("limit kind"), format!("{case}: a file too large is reported as {:?}", get_error_kind(&e)), &c.rep("limited file")),
        Err(m) => cx.viol(sig("panic"), format!("{case}: writing to a limited file panics: {m}"), &c.rep("limited file")),
        _ => {}
    }
    if got.len() > lim.min(n) || got != wire[..got.len()] { cx.viol(sig("contents"), format!("{case}: a file limited to {lim} contains {} instead of a prefix of {}", hex(&got), hex(wire)), &c.rep("limited file")); }
    let _ = std::fs::remove_file(&p);
}
/// Real sockets: a peer which stops, goes away, or is slow.
fn sockets(cx: &mut Cx) {
    use std::os::unix::net::UnixStream;
    for k in 0..(6 * cx.a.work / 100).max(2) {
        let mut r = cx.rng(&[5, k, cx.a.shard as u64]);
        let n = *r.pick(&[0usize, 1, 5, 300, 8190, 9000, 30000]) ;
        let v: (u16, Vec<u32>, String) = (r.u64() as u16, (0..n as u32).map(|i| i.wrapping_mul(0x9E3779B9)).collect(), "x".repeat(r.us(20)));
        let wire = v.write_to_vec().unwrap();
        let cut = if r.bool() { wire.len() } else { r.us(wire.len() + 1) };
        let buffered = r.bool();
        // the writer sends in pieces, then closes
        about_to("messages over a socket", &[]);
        let (a, b) = UnixStream::pair().unwrap();
        let mut r2 = Rng::new(r.u64());
        let (got, wr) = std::thread::scope(|s| {
            let w = s.spawn(|| { let mut a = a; let mut i = 0; while i < cut { let m = 1 + r2.us((cut - i).min(5000)); a.write_all(&wire[i..i + m])?; i += m; if r2.one_in(4) { std::thread::yield_now() } } Ok::<_, io::Error>(()) });
            let got = call(|| if buffered { <(u16, Vec<u32>, String)>::read_from_stream_buffered(&b) } else { <(u16, Vec<u32>, String)>::read_from_stream_unbuffered(&b) });
            (got, w.join().unwrap())
        });
        cx.count("messages over sockets", 1);
        match got {
            Ok(Ok(g)) if cut == wire.len() && g == v => {}
            Ok(Err(e)) if cut < wire.len() && speedy::IsEof::is_eof(&e) => {}
            Ok(g) => cx.viol("C10|socket", format!("{cut} of {} bytes over a socket (writer {wr:?}): {:?}", wire.len(), g.as_ref().map(|g| g.0).map_err(|e| e.to_string())), &[]),
            Err(_) => cx.viol("C10|socket", format!("{cut} of {} bytes over a socket: panic", wire.len()), &[]),
        }
        // the reader goes away
        let (a, b) = UnixStream::pair().unwrap();
        drop(b);
        match call(|| v.write_to_stream(&a)) { Ok(Err(e)) if io_kind(&e) == Some(io::ErrorKind::BrokenPipe) => {} x => cx.viol("C10|closed socket", format!("writing to a closed socket: {:?}", x.map(|x| x.map_err(|e| e.to_string())).ok()), &[]) }
        // nothing there yet
        let (a, b) = UnixStream::pair().unwrap();
        b.set_nonblocking(true).unwrap();
        (&a).write_all(&wire[..cut.min(wire.len() - 1).min(1)]).unwrap();
        // (a reader which keeps on asking is told in the end that nothing will come)
        struct Patient<'a>(&'a UnixStream, u32);
        impl Read for Patient<'_> { fn read(&mut self, o: &mut [u8]) -> io::Result<usize> { self.1 += 1; if self.1 > 1000 { return Ok(0) } self.0.read(o) } }
        let b = Patient(&b, 0);
        match call(|| if buffered { <(u16, Vec<u32>, String)>::read_from_stream_buffered(b) } else { <(u16, Vec<u32>, String)>::read_from_stream_unbuffered(b) }) { Ok(Err(e)) if io_kind(&e) == Some(io::ErrorKind::WouldBlock) => {} x => cx.viol("C10|idle socket", format!("reading from an idle socket: {:?}", x.map(|x| x.map_err(|e| e.to_string())).ok()), &[]) }
        cx.eval(hash_bytes(cut as u64, &wire), true);
    }
}
/// A fault which only shows when flushed, or is never seen by anyone but the writer.
fn special(cx: &mut Cx) {
    about_to("special streams", &[]);
    struct Zero; impl Write for Zero { fn write(&mut self, _: &[u8]) -> io::Result<usize> { Ok(0) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
    match call(|| 7u32.write_to_stream(Zero)) { Ok(Err(e)) if io_kind(&e) == Some(io::ErrorKind::WriteZero) => {} _ => cx.viol("C10|zero writer", "a stream which takes nothing is not reported as WriteZero", &[]) }
    struct Once(u8); impl Read for Once { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0 += 1; match self.0 { 1 => { b[0] = 9; Ok(1) } 2 => Err(io::ErrorKind::TimedOut.into()), _ => { b.fill(1); Ok(b.len()) } } } }
    for buffered in [false, true] {
        let r = call(|| if buffered { u32::read_from_stream_buffered(Once(0)) } else { u32::read_from_stream_unbuffered(Once(0)) });
        match r { Ok(Err(e)) if io_kind(&e) == Some(io::ErrorKind::TimedOut) => {} x => cx.viol("C10|passing fault", format!("a stream which fails once in the middle: {:?}", x.map(|x| x.map_err(|e| e.to_string())).ok()), &[]) }
    }
    cx.count("special streams", 3);
}
pub fn c10(cx: &mut Cx) {
    unsafe { signal(25, 1); }
    special(cx);
    sockets(cx);
    super::script::c10_scripts(cx);
    each_value(cx, 60, 0, |cx, c, v| {
        let e = v.wire(c.be);
        if e.bad.is_some() { return; }
        let want = v.expect();
        let wire = e.out;
        reads(cx, c, &wire, &want);
        writes(cx, c, v, &wire);
        if c.r.one_in(4) { files(cx, c, v, &wire); }
        cx.sample(|| format!("{} {}", c.case, hex(&wire)));
    });
}

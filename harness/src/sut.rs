//! Running the code under test: panic capture, allocation accounting, crash and hang reports.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- allocator
pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(isize::MAX) };
}
fn add(n: isize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if n > 0 && v > LIMIT.with(|x| x.get()) { return false; }
        l.set(v);
        if n > 0 {
            PEAK.with(|p| if v > p.get() { p.set(v) });
            COUNT.with(|c| c.set(c.get() + 1));
            BIGGEST.with(|b| if n as usize > b.get() { b.set(n as usize) });
        }
        true
    }).unwrap_or(true)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if add(l.size() as isize) { System.alloc(l) } else { std::ptr::null_mut() } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as isize)); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if add(l.size() as isize) { System.alloc_zeroed(l) } else { std::ptr::null_mut() } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if add(n as isize) { add(-(l.size() as isize)); System.realloc(p, l, n) } else { std::ptr::null_mut() }
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Mem { pub peak: usize, pub count: u64, pub biggest: usize, pub leaked: isize }
/// Measures allocations of this thread during `f`, refusing any beyond `limit` bytes live.
pub fn measured<T>(limit: usize, f: impl FnOnce() -> T) -> (T, Mem) {
    let before = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(before));
    COUNT.with(|c| c.set(0));
    BIGGEST.with(|c| c.set(0));
    LIMIT.with(|l| l.set(before.saturating_add(limit as isize)));
    let r = f();
    LIMIT.with(|l| l.set(isize::MAX));
    let m = Mem { peak: (PEAK.with(|p| p.get()) - before).max(0) as usize, count: COUNT.with(|c| c.get()), biggest: BIGGEST.with(|c| c.get()), leaked: LIVE.with(|l| l.get()) - before };
    (r, m)
}
pub fn live() -> isize { LIVE.with(|l| l.get()) }

// ---------------------------------------------------------------- panics
thread_local! {
    static IN_SUT: Cell<u32> = const { Cell::new(0) };
    static MSG: RefCell<String> = RefCell::new(String::new());
}
static CALLS: AtomicU64 = AtomicU64::new(0);
static RUNNING: AtomicBool = AtomicBool::new(false);
/// Payload of panics thrown on purpose by test code running inside the code under test.
pub struct Planned;
pub fn install() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if IN_SUT.with(|c| c.get()) > 0 {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
            let l = i.location().map(|l| { let f = l.file(); format!("{}:{}", f.rsplit('/').next().unwrap_or(f), l.line()) }).unwrap_or_default();
            let _ = MSG.try_with(|c| *c.borrow_mut() = format!("{m} at {l}"));
        } else { old(i) }
    }));
}
pub enum Caught { Planned, Panic(String) }
/// Calls into the code under test; a panic comes back as an error.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    CALLS.fetch_add(1, Relaxed);
    let main = IS_MAIN.with(|m| m.get());
    if main { RUNNING.store(true, Relaxed); }
    IN_SUT.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(c.get() - 1));
    if main { RUNNING.store(false, Relaxed); }
    r.map_err(|p| if p.is::<Planned>() { Caught::Planned } else {
        std::mem::forget(p);
        Caught::Panic(MSG.with(|m| m.borrow().clone()))
    })
}
/// Test code called back by the code under test, which may panic for reasons of its own.
pub fn in_harness<T>(f: impl FnOnce() -> T) -> T {
    let n = IN_SUT.with(|c| c.replace(0));
    let r = f();
    IN_SUT.with(|c| c.set(n));
    r
}
pub fn calls() -> u64 { CALLS.load(Relaxed) }

// ---------------------------------------------------------------- crashes and hangs
thread_local!(static IS_MAIN: Cell<bool> = const { Cell::new(false) });
static CASE_PTR: AtomicUsize = AtomicUsize::new(0);
static CASE_LEN: AtomicUsize = AtomicUsize::new(0);
static DATA_PTR: AtomicUsize = AtomicUsize::new(0);
static DATA_LEN: AtomicUsize = AtomicUsize::new(0);
static CRASH_FD: AtomicUsize = AtomicUsize::new(usize::MAX);
/// What to write down if the next call never comes back. Both must outlive the call.
pub fn about_to(case: &str, data: &[u8]) {
    CASE_PTR.store(case.as_ptr() as usize, Relaxed);
    CASE_LEN.store(case.len(), Relaxed);
    DATA_PTR.store(data.as_ptr() as usize, Relaxed);
    DATA_LEN.store(data.len(), Relaxed);
}
#[cfg(not(miri))]
mod sig {
    use super::*;
    extern "C" {
        fn signal(n: i32, h: usize) -> usize;
        fn sigaltstack(ss: *const [usize; 3], old: *mut u8) -> i32;
        fn sigaction(n: i32, act: *const SigAction, old: *mut u8) -> i32;
        fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
        fn _exit(c: i32) -> !;
        fn setitimer(which: i32, new: *const [i64; 4], old: *mut u8) -> i32;
        fn open(p: *const std::ffi::c_char, flags: i32, ...) -> i32;
    }
    #[repr(C)]
    struct SigAction { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
    fn put(b: &[u8]) { unsafe { write(CRASH_FD.load(Relaxed) as i32, b.as_ptr() as _, b.len()); } }
    fn dump(kind: &[u8]) {
        unsafe {
            put(b"{\"kind\":\""); put(kind); put(b"\",\"case\":\"");
            let (p, n) = (CASE_PTR.load(Relaxed), CASE_LEN.load(Relaxed));
            if p != 0 { put(std::slice::from_raw_parts(p as *const u8, n)); }
            put(b"\",\"data\":\"");
            let (p, n) = (DATA_PTR.load(Relaxed), DATA_LEN.load(Relaxed));
            if p != 0 { for &b in std::slice::from_raw_parts(p as *const u8, n.min(1 << 16)) { let h = b"0123456789abcdef"; put(&[h[(b >> 4) as usize], h[(b & 15) as usize]]); } }
            put(b"\"}\n");
        }
    }
    extern "C" fn fatal(n: i32) {
        let in_sut = RUNNING.load(Relaxed);
        dump(if !in_sut { b"harness-crash" } else { match n { 6 => b"abort", 11 => b"segfault", 7 => b"bus error", 4 => b"illegal instruction", 8 => b"fpe", _ => b"signal" } });
        unsafe { _exit(if in_sut { 77 } else { 78 }) }
    }
    static LAST: AtomicU64 = AtomicU64::new(0);
    static TICKS: AtomicU64 = AtomicU64::new(0);
    static HANG: AtomicU64 = AtomicU64::new(40);
    extern "C" fn tick(_: i32) {
        let c = CALLS.load(Relaxed);
        if RUNNING.load(Relaxed) && LAST.swap(c, Relaxed) == c {
            if TICKS.fetch_add(1, Relaxed) >= HANG.load(Relaxed) { dump(b"hang"); unsafe { _exit(77) } }
        } else { TICKS.store(0, Relaxed); }
    }
    pub fn arm(path: &str, hang_seconds: u64) {
        unsafe {
            let p = format!("{path}\0");
            let fd = open(p.as_ptr() as _, 0o1101, 0o644u32);
            CRASH_FD.store(fd as usize, Relaxed);
            let st = Box::leak(vec![0u8; 1 << 16].into_boxed_slice());
            sigaltstack(&[st.as_mut_ptr() as usize, 0, st.len()], std::ptr::null_mut());
            for n in [4, 6, 7, 8, 11] {
                let a = SigAction { handler: fatal as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
                sigaction(n, &a, std::ptr::null_mut());
            }
            HANG.store(hang_seconds * 2, Relaxed);
            signal(26, tick as extern "C" fn(i32) as usize);
            setitimer(1, &[0, 500_000, 0, 500_000], std::ptr::null_mut());
        }
    }
}
pub fn arm(path: &str, hang_seconds: u64) {
    IS_MAIN.with(|m| m.set(true));
    #[cfg(not(miri))]
    if std::env::var_os("HZ_NO_SIGNALS").is_none() { sig::arm(path, hang_seconds); }
    #[cfg(miri)]
    let _ = (path, hang_seconds);
}
/// Call on the thread which makes the calls.
pub fn main_thread() { IS_MAIN.with(|m| m.set(true)); }

// ---------------------------------------------------------------- simulated I/O
use crate::rng::Rng;
use std::io;
#[derive(Clone, Debug)]
pub struct Plan {
    /// chunk size policy: 0 everything asked for, otherwise at most this, randomly
    pub chunk: usize,
    /// one call in this many is interrupted (0: never)
    pub interrupt: u64,
    pub seed: u64,
    /// fail with this error kind once this many bytes went through
    pub fault: Option<(usize, io::ErrorKind)>,
    /// how many calls fail before the stream works again
    pub times: u32,
}
impl Plan {
    pub fn whole() -> Plan { Plan { chunk: 0, interrupt: 0, seed: 0, fault: None, times: 20_000 } }
    pub fn random(r: &mut Rng) -> Plan {
        let chunk = match r.below(8) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 7 + r.us(10), 5 => r.us(600) + 1, 6 => 8191 + r.us(4), _ => r.us(20000) + 1 };
        Plan { chunk, interrupt: if r.one_in(3) { 2 + r.below(6) } else { 0 }, seed: r.u64(), fault: None, times: 20_000 }
    }
}
/// All the kinds a stream may fail with (Interrupted is not a failure, UnexpectedEof counts as the end).
pub const FAULTS: [io::ErrorKind; 37] = { use io::ErrorKind::*; [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks, InvalidFilename, ArgumentListTooLong, Unsupported, OutOfMemory, Other] };
/// What an injected error carries, so that it can be recognised.
#[derive(Debug, PartialEq)] pub struct Carried(pub u64);
impl std::fmt::Display for Carried { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "injected fault") } }
impl std::error::Error for Carried {}
/// An error of a kind in one of the forms errors come in: from the system, with a payload, with a text, bare.
pub fn fault(kind: io::ErrorKind, seed: u64) -> io::Error {
    match seed % 4 {
        0 => if let Some(code) = (1..134).find(|c| io::Error::from_raw_os_error(*c).kind() == kind) { io::Error::from_raw_os_error(code) } else { io::Error::new(kind, Carried(seed)) },
        1 => io::Error::new(kind, Carried(seed)),
        2 => kind.into(),
        _ => io::Error::new(kind, "injected fault"),
    }
}
/// Whether this is that very error, or what it has become (lost its code, its payload...).
pub fn is_fault(e: &io::Error, kind: io::ErrorKind, seed: u64) -> bool {
    let w = fault(kind, seed);
    let payload = |e: &io::Error| e.get_ref().and_then(|x| x.downcast_ref::<Carried>()).map(|x| x.0);
    e.kind() == kind && e.raw_os_error() == w.raw_os_error() && e.to_string() == w.to_string() && payload(e) == payload(&w) && e.get_ref().is_some() == w.get_ref().is_some()
}
pub struct SimRead<'d> {
    pub data: &'d [u8], pub pos: usize, pub plan: Plan, rng: Rng,
    pub asked: u64, pub max_asked: usize, pub calls: u64, pub interrupts: u64, pub eofs: u64, pub faulted: bool, faults: u32, pub uninit_seen: bool,
    last_interrupt: bool,
}
impl<'d> SimRead<'d> {
    pub fn new(data: &'d [u8], plan: Plan) -> Self { let rng = Rng::new(plan.seed); SimRead { data, pos: 0, plan, rng, asked: 0, max_asked: 0, calls: 0, interrupts: 0, eofs: 0, faulted: false, faults: 0, uninit_seen: false, last_interrupt: false } }
}
impl<'d> io::Read for SimRead<'d> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        self.asked += buf.len() as u64;
        self.max_asked = self.max_asked.max(buf.len());
        // a reader may look at what it is given; under Miri this is where uninitialised memory shows
        let mut x = 0u8;
        if cfg!(miri) { static Z: [u8; 4096] = [0; 4096]; for c in buf.chunks(4096) { x ^= (c == &Z[..c.len()]) as u8 } } else if let (Some(a), Some(b)) = (buf.first(), buf.last()) { x ^= a ^ b }
        std::hint::black_box(x);
        if self.plan.interrupt > 0 && !self.last_interrupt && self.rng.one_in(self.plan.interrupt) {
            self.interrupts += 1;
            self.last_interrupt = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.last_interrupt = false;
        let mut n = buf.len().min(self.data.len() - self.pos);
        if self.plan.chunk > 0 { n = n.min(1 + self.rng.us(self.plan.chunk)); }
        if let Some((at, kind)) = self.plan.fault {
            if self.pos >= at && !buf.is_empty() && self.faults < self.plan.times { self.faulted = true; self.faults += 1; return Err(fault(kind, self.plan.seed)); }
            if self.pos < at { n = n.min(at - self.pos) }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if n == 0 && !buf.is_empty() { self.eofs += 1; }
        Ok(n)
    }
}
pub struct SimWrite { pub out: Vec<u8>, pub plan: Plan, rng: Rng, pub calls: u64, pub interrupts: u64, pub faulted: bool, faults: u32, pub flushed: u64, last_interrupt: bool }
impl SimWrite { pub fn new(plan: Plan) -> Self { let rng = Rng::new(plan.seed); SimWrite { out: vec![], plan, rng, calls: 0, interrupts: 0, faulted: false, faults: 0, flushed: 0, last_interrupt: false } } }
impl io::Write for SimWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.plan.interrupt > 0 && !self.last_interrupt && self.rng.one_in(self.plan.interrupt) {
            self.interrupts += 1;
            self.last_interrupt = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.last_interrupt = false;
        let mut n = buf.len();
        if self.plan.chunk > 0 { n = n.min(1 + self.rng.us(self.plan.chunk)); }
        if let Some((at, kind)) = self.plan.fault {
            if self.out.len() >= at && !buf.is_empty() && self.faults < self.plan.times { self.faulted = true; self.faults += 1; return if kind == io::ErrorKind::WriteZero { Ok(0) } else { Err(fault(kind, self.plan.seed)) }; }
            if self.out.len() < at { n = n.min(at - self.out.len()) }
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { self.flushed += 1; Ok(()) }
}

//! C24: whole files, faithfully written and read.
use crate::cx::*;
use crate::ops::{hex, hexfull, Out, Way};
use crate::rng::*;
use speedy::{Readable, Writable};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};

/// Lengths around which files are special to the operating system or to buffers.
const SIZES: [usize; 26] = [0, 1, 2, 3, 7, 15, 63, 64, 511, 512, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 12287, 12288, 12289, 16384, 65535, 65536, 65537, 131_073];
fn fd_count() -> usize { std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0) }
fn same(a: &Out, b: &Out) -> bool { match (a, b) { (Out::Ok(x), Out::Ok(y)) => x.canon == y.canon && x.invalid.is_none(), (Out::Err(_), Out::Err(_)) => true, _ => false } }
fn stat(p: &Path) -> (u64, u64, i64, i64, u32, u64) { let m = std::fs::symlink_metadata(p).unwrap(); (m.ino(), m.len(), m.mtime(), m.mtime_nsec(), m.mode(), m.nlink()) }

struct Dir(PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

pub fn c24(cx: &mut Cx) {
    let root = cx.scratch("files");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    let root = Dir(root.canonicalize().unwrap());
    paths(cx, &root.0);
    unsized_files(cx, &root.0);
    huge_files(cx, &root.0);
    sizes(cx, &root.0);
    let all = crate::zoo::all();
    let f = root.0.join("f.bin");
    let link = root.0.join("link");
    let hard = root.0.join("hard");
    for i in cx.ops(&all) {
        let op = &*all[i];
        let dflt = op.ctx() == "le";
        for k in 0..(12 * cx.a.work / 100).max(1) {
            if cx.late() { return; }
            let mut r = cx.rng(&[24, i as u64, k]);
            let be = r.bool() && op.supports(true) || !op.supports(false);
            let dflt = dflt && r.bool();
            // ---- writing over whatever was there
            let mut wire = vec![];
            let b = if r.one_in(10) { 60_000 } else { budget(&mut r) };
            let seed = r.u64();
            op.with_value(Rng::new(seed), b, 0, &mut |v| {
                let e = v.wire(be);
                v.dflt(dflt);
                let how = r.below(8);
                for p in [&f, &link, &hard] { let _ = std::fs::remove_file(p); }
                let n = e.out.len();
                let old: Option<Vec<u8>> = match how { 0 => None, 1 => Some(vec![]), 2 => Some(vec![0xEE; r.us(n + 1)]), 3 => Some(vec![0xEE; n]), 4 => Some(vec![0xEE; n + 1 + r.us(20)]), 5 => Some(vec![0xEE; n + 20_000 + r.us(9000)]), 6 => Some({ let mut o = e.out.clone(); o.extend([0xEE; 5]); o }), _ => Some(vec![0xEE; 8192 + r.us(3)]) };
                if let Some(o) = &old { std::fs::write(&f, o).unwrap(); }
                // through a symbolic link, a second name, or a file which is not writable by its mode
                let via = match r.below(6) { 0 => { std::os::unix::fs::symlink(&f, &link).unwrap(); &link } 1 if old.is_some() => { std::fs::hard_link(&f, &hard).unwrap(); &hard } _ => &f };
                let fds = fd_count();
                let res = v.to_file(be, via);
                let left = fd_count() as i64 - fds as i64;
                let rep = [("type", op.name().to_string()), ("data", hexfull(&e.out)), ("be", be.to_string())];
                let old = format!("{:?}", old.as_ref().map(|o| o.len()));
                match res {
                    Err(m) => cx.viol(format!("C24|{}|write panic", op.name()), format!("write_to_file of {} panics: {m}", op.name()), &rep),
                    Ok(Ok(())) => {
                        let got = std::fs::read(via).unwrap();
                        if let Some(why) = e.bad { cx.viol(format!("C24|{}|write", op.name()), format!("write_to_file of {} succeeds although {why}", op.name()), &rep); }
                        else if got != e.out { cx.viol(format!("C24|{}|write", op.name()), format!("write_to_file of {} be={be} over a file of {old} bytes leaves {} ({} bytes) instead of {} ({n} bytes)", op.name(), hex(&got), got.len(), hex(&e.out)), &rep); }
                        cx.count("files written and compared", 1);
                    }
                    Ok(Err(x)) => if e.bad.is_none() { cx.viol(format!("C24|{}|write fails", op.name()), format!("write_to_file of {} be={be} over a file of {old} bytes fails: {x:?}", op.name()), &rep); },
                }
                if left != 0 { cx.viol("C24|write leaves descriptors".to_string(), format!("write_to_file of {} leaves {left} descriptors open", op.name()), &rep); }
                cx.eval(hash_bytes(i as u64 * 16 + how, &e.out), n > 0);
                wire = e.out;
            });
            // ---- reading the same as from memory, without leaving a mark, and for good
            for round in 0..2 {
                let (data, label) = if round == 0 { (std::mem::take(&mut wire), "valid") } else { input(op, &mut r, be) };
                if op.shape().zero_elems && op.refdec(be, true, &data).huge() { continue; }
                for p in [&f, &link, &hard] { let _ = std::fs::remove_file(p); }
                std::fs::write(&f, &data).unwrap();
                if r.one_in(4) { std::fs::set_permissions(&f, std::os::unix::fs::PermissionsExt::from_mode(0o444)).unwrap(); }
                let via = match r.below(5) { 0 => { std::os::unix::fs::symlink("f.bin", &link).unwrap(); &link } 1 => { std::fs::hard_link(&f, &hard).unwrap(); &hard } _ => &f };
                let before = stat(&f);
                let want = op.read_buf(Way::Copy, false, be, &data);
                let case = format!("reading {} from a file be={be}", op.name());
                crate::sut::about_to(&case, &data);
                let fds = fd_count();
                let fate = r.below(5);
                let mut after = None;
                let got = op.read_file_then(dflt, be, via, &mut || {
                    after = Some((stat(&f), std::fs::read(&f).unwrap()));
                    match fate {
                        0 => { let o = std::fs::OpenOptions::new().write(true).open(&f).unwrap(); o.set_len(0).unwrap(); }
                        1 => { std::io::Write::write_all(&mut std::fs::OpenOptions::new().write(true).open(&f).unwrap(), &vec![0xFFu8; data.len()]).unwrap(); }
                        2 => { std::fs::remove_file(&f).unwrap(); }
                        _ => {}
                    }
                });
                let left = fd_count() as i64 - fds as i64;
                let rep = [("type", op.name().to_string()), ("data", hexfull(&data)), ("be", be.to_string())];
                let fate = ["truncated", "overwritten", "removed", "left alone", "left alone"][fate as usize];
                cx.count(&format!("files {fate} before looking at the value"), 1);
                if !same(&got, &want) { cx.viol(format!("C24|{}|read", op.name()), format!("{} from a file of {} bytes ({label}, {fate} after the call) gives {got:?}, from a buffer {want:?}", op.name(), data.len()), &rep); }
                if let (Out::Err(e), Out::Err(w)) = (&got, &want) { let io = |e| matches!(speedy::private::get_error_kind(e), speedy::private::ErrorKind::IoError(e) if e.kind() != std::io::ErrorKind::UnexpectedEof); if io(e) && !io(w) { cx.viol(format!("C24|{}|read error", op.name()), format!("{} from a readable file of {} bytes gives the I/O error {e:?}", op.name(), data.len()), &rep); } }
                match after {
                    Some((s, bytes)) => if s != before || bytes != data { cx.viol(format!("C24|{}|changes the file", op.name()), format!("reading {} changes the file: {before:?} to {s:?}", op.name()), &rep) },
                    None => cx.viol(format!("C24|{}|read panic", op.name()), format!("reading {} from a file: {got:?}", op.name()), &rep),
                }
                if left != 0 { cx.viol("C24|read leaves descriptors".to_string(), format!("read_from_file of {} leaves {left} descriptors open", op.name()), &rep); }
                cx.count("file reads compared", 1);
                cx.eval(key(i, be, &data) ^ 0x24, data.len() > 0);
                cx.sample(|| format!("{} {} {label}, {fate}", op.name(), hex(&data)));
            }
        }
    }
}

#[derive(Readable, Writable, PartialEq, Debug)] struct All { #[speedy(length = ..)] v: Vec<u8> }
#[derive(Readable, Writable, PartialEq, Debug)] struct All32 { a: u8, #[speedy(length = ..)] v: Vec<u32> }
#[derive(Readable, Writable, PartialEq, Debug)] struct Text { #[speedy(length = ..)] v: String }
#[derive(Readable, Writable, PartialEq, Debug)] struct Dflt { #[speedy(default_on_eof)] a: u32 }
#[derive(Readable, Writable, PartialEq, Debug)] struct Nothing;

extern "C" { fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32; }
/// Files whose size the system cannot tell: pipes with a name and what the kernel makes up.
fn unsized_files(cx: &mut Cx, root: &Path) {
    use std::io::Write;
    use std::os::unix::fs::OpenOptionsExt;
    for p in ["/proc/version", "/proc/filesystems", "/proc/sys/kernel/ostype", "/proc/self/cmdline"] {
        let Ok(data) = std::fs::read(p) else { continue };
        crate::sut::about_to(p, &data);
        let got = crate::sut::call(|| All::read_from_file(p)).map(|r| r.map(|a| a.v).map_err(|e| e.to_string()));
        match got { Ok(Ok(v)) if v == data => {} g => cx.viol("C24|kernel file".to_string(), format!("{p}, which contains {}, is read as {:?}", hex(&data), g.ok()), &[]) }
        cx.count("files of unknown size read", 1);
    }
    let f = root.join("fifo");
    for k in 0..(40 * cx.a.work / 100).max(4) {
        if cx.late() { return; }
        let mut r = cx.rng(&[242, k, cx.a.shard as u64]);
        let _ = std::fs::remove_file(&f);
        let c = std::ffi::CString::new(f.to_str().unwrap()).unwrap();
        if unsafe { mkfifo(c.as_ptr(), 0o600) } != 0 { return; }
        let n = *r.pick(&[0usize, 1, 7, 100, 2040, 2050, 5000, 17_000]);
        let v = (r.u64() as u16, (0..n as u32).map(|i| i.wrapping_mul(0x9E3779B9)).collect::<Vec<u32>>(), "y".repeat(r.us(30)));
        let wire = v.write_to_vec().unwrap();
        let cut = if r.one_in(3) { r.us(wire.len()) } else { wire.len() };
        let mut r2 = Rng::new(r.u64());
        let done = std::sync::atomic::AtomicBool::new(false);
        crate::sut::about_to("a message through a named pipe", &[]);
        let got = std::thread::scope(|s| {
            s.spawn(|| {
                let start = std::time::Instant::now();
                let mut w = loop {
                    match std::fs::OpenOptions::new().write(true).custom_flags(0o4000).open(&f) {
                        Ok(w) => break w,
                        Err(_) if done.load(std::sync::atomic::Ordering::SeqCst) || start.elapsed().as_secs() > 20 => return,
                        Err(_) => std::thread::yield_now(),
                    }
                };
                let mut i = 0;
                while i < cut && !done.load(std::sync::atomic::Ordering::SeqCst) {
                    let m = 1 + r2.us((cut - i).min(5000));
                    match w.write(&wire[i..i + m]) { Ok(m) => i += m, Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::yield_now(), Err(_) => return }
                    if r2.one_in(4) { std::thread::yield_now() }
                }
            });
            let got = crate::sut::call(|| <(u16, Vec<u32>, String)>::read_from_file(&f));
            done.store(true, std::sync::atomic::Ordering::SeqCst);
            got
        });
        match got {
            Ok(Ok(g)) if cut == wire.len() && g == v => {}
            Ok(Err(e)) if cut < wire.len() && speedy::IsEof::is_eof(&e) => {}
            g => cx.viol("C24|named pipe".to_string(), format!("{cut} of the {} bytes of a message through a named pipe are read as {:?}", wire.len(), g.ok().map(|g| g.map(|g| g.0).map_err(|e| e.to_string()))), &[]),
        }
        cx.count("files of unknown size read", 1);
        cx.eval(hash_bytes(cut as u64, &wire), true);
    }
}

/// Every special file size, by types which take in the whole file.
fn sizes(cx: &mut Cx, root: &Path) {
    let f = root.join("sized");
    for (j, &n) in SIZES.iter().enumerate() {
        if !cx.mine(j) { continue; }
        let mut r = cx.rng(&[241, n as u64]);
        let data: Vec<u8> = (0..n).map(|_| 32 + r.below(95) as u8).collect();
        let longer: Vec<u8> = (0..n + 1 + r.us(9000)).map(|_| 0xEE).collect();
        fn go<T: for<'a> Readable<'a, speedy::LittleEndian> + Writable<speedy::LittleEndian> + PartialEq + std::fmt::Debug>(cx: &mut Cx, f: &Path, data: &[u8], longer: &[u8], what: &str) {
            std::fs::write(f, data).unwrap();
            let case = format!("reading {what} from a file");
            crate::sut::about_to(&case, data);
            let Ok((a, b)) = crate::sut::call(|| (T::read_from_buffer_copying_data(data).ok(), T::read_from_file(f).ok())) else { cx.viol(format!("C24|size panic {what}"), format!("{what} from a file of {} bytes panics", data.len()), &[]); return };
            if a != b { cx.viol(format!("C24|size {what}"), format!("{what} of a file of {} bytes differs from a buffer read ({} against {})", data.len(), b.is_some(), a.is_some()), &[]); }
            if let Some(v) = a {
                let want = v.write_to_vec().unwrap();
                std::fs::write(f, longer).unwrap();
                match crate::sut::call(|| v.write_to_file(f)) { Ok(Ok(())) => if std::fs::read(f).unwrap() != want { cx.viol(format!("C24|size write {what}"), format!("{what} of {} bytes written over {} bytes", want.len(), longer.len()), &[]); }, _ => cx.viol(format!("C24|size write {what}"), format!("{what} of {} bytes cannot be written", want.len()), &[]) }
            }
            cx.count("sized files", 1);
            cx.eval(hash_bytes(data.len() as u64, what.as_bytes()), true);
        }
        go::<All>(cx, &f, &data, &longer, "all bytes");
        go::<All32>(cx, &f, &data, &longer, "all words");
        go::<Text>(cx, &f, &data, &longer, "all text");
        go::<Dflt>(cx, &f, &data, &longer, "a default on eof");
        go::<Nothing>(cx, &f, &data, &longer, "nothing");
        go::<()>(cx, &f, &data, &longer, "unit");
        go::<u8>(cx, &f, &data, &longer, "a byte");
        go::<u64>(cx, &f, &data, &longer, "a word");
        go::<[u8; 4096]>(cx, &f, &data, &longer, "a page");
        go::<Option<u8>>(cx, &f, &data, &longer, "an optional byte");
        let mut pre = (n as u32).to_le_bytes().to_vec();
        pre.extend(&data);
        go::<Vec<u8>>(cx, &f, &pre, &longer, "a vector");
        go::<String>(cx, &f, &pre, &longer, "a string");
        pre.pop();
        go::<Vec<u8>>(cx, &f, &pre, &longer, "a vector cut short");
        // a file with holes
        let h = std::fs::File::create(&f).unwrap();
        h.set_len(n as u64).unwrap();
        match crate::sut::call(|| All::read_from_file(&f)) { Ok(Ok(v)) => if v.v != vec![0; n] { cx.viol("C24|sparse", format!("a sparse file of {n} bytes reads as {} bytes", v.v.len()), &[]); }, _ => cx.viol("C24|sparse", format!("a sparse file of {n} bytes cannot be read"), &[]) }
    }
}

/// Messages at the start of files whose size takes more than 32 bits (nearly all of it holes).
fn huge_files(cx: &mut Cx, root: &Path) {
    use std::io::Write;
    let f = root.join("huge");
    let mut head = vec![5u8, 0, 0, 0];
    head.extend(*b"hello, this is a message");
    for size in [(1u64 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 6, (1 << 33) + 4096, (5 << 30) + 7] {
        let mut h = std::fs::File::create(&f).unwrap();
        h.write_all(&head).unwrap();
        if h.set_len(size).is_err() { cx.count("huge files which cannot be made here", 1); continue; }
        drop(h);
        let got = crate::sut::call(|| (u64::read_from_file(&f).ok(), String::read_from_file(&f).ok(), <(u32, [u8; 9], Option<u8>)>::read_from_file(&f).ok(), u8::read_from_file(&f).ok()));
        let want = (u64::from_le_bytes(head[..8].try_into().unwrap()), "hello".to_string(), (5u32, *b"hello, th", Some(b's')), 5u8);
        match got {
            Ok((Some(a), Some(b), Some(c), Some(d))) if (a, &b, &c, d) == (want.0, &want.1, &want.2, want.3) => {}
            Ok(o) => cx.viol(format!("C24|huge|{size}"), format!("messages at the start of a file of {size} bytes read as {o:?}, not {want:?}"), &[]),
            Err(_) => cx.viol(format!("C24|huge panic|{size}"), format!("reading from a file of {size} bytes panics"), &[]),
        }
        cx.count("reads from files of more than 2 GiB", 4);
        cx.eval(hash_bytes(size, b"huge"), true);
    }
    let _ = std::fs::remove_file(&f);
}

/// Paths which cannot be read or written.
fn paths(cx: &mut Cx, root: &Path) {
    let plain = root.join("plain");
    std::fs::write(&plain, [1, 0, 0, 0, 9]).unwrap();
    let (lp, dangling) = (root.join("loop"), root.join("dangling"));
    std::os::unix::fs::symlink(&lp, &lp).unwrap();
    std::os::unix::fs::symlink(root.join("not there"), &dangling).unwrap();
    let dir = root.join("dir");
    std::fs::create_dir(&dir).unwrap();
    let mut run = |what: &str, p: &Path, kinds: &[i32], write: bool| {
        let r = crate::sut::call(|| if write { vec![vec![1u8].write_to_file(p), ().write_to_file(p), "x".write_to_file(p)] } else { vec![<Vec<u8>>::read_from_file(p).map(|_| ()), <()>::read_from_file(p), u64::read_from_file(p).map(|_| ()), All::read_from_file(p).map(|_| ())] });
        let n = if write { "write_to_file" } else { "read_from_file" };
        match r {
            Err(_) => cx.viol(format!("C24|path panic|{n}|{what}"), format!("{n} of {what} panics"), &[]),
            Ok(rs) => for r in rs {
                let ok = match &r { Err(e) => match speedy::private::get_error_kind(e) { speedy::private::ErrorKind::IoError(e) => kinds.is_empty() || e.raw_os_error().map_or(true, |c| kinds.contains(&c)), _ => false }, Ok(()) => false };
                cx.count("bad paths tried", 1);
                if !ok { cx.viol(format!("C24|path|{n}|{what}"), format!("{n} of {what} gives {r:?}"), &[]); }
            },
        }
        cx.eval(hash_bytes(write as u64, what.as_bytes()), true);
    };
    run("a missing file", &root.join("no such file"), &[2], false);
    run("a dangling link", &dangling, &[2], false);
    run("a loop of links", &lp, &[40], false);
    run("a path through a file", &plain.join("x"), &[20], false);
    run("a directory", &dir, &[], false);
    run("a name which is too long", &root.join("x".repeat(300)), &[36], false);
    run("a name with a zero byte", &root.join("a\0b"), &[], false);
    run("an empty path", Path::new(""), &[2], false);
    run("a missing directory", &root.join("no").join("file"), &[2], true);
    run("a loop of links", &lp, &[40], true);
    run("a path through a file", &plain.join("x"), &[20], true);
    run("a directory", &dir, &[21], true);
    run("a name which is too long", &root.join("x".repeat(300)), &[36], true);
    run("a name with a zero byte", &root.join("a\0b"), &[], true);
    run("an empty path", Path::new(""), &[2], true);
    if std::fs::read(&plain).unwrap() != [1, 0, 0, 0, 9] { cx.viol("C24|bystander", "a file nobody wrote to has changed", &[]); }
    // whatever can name a path
    let p = root.join("named");
    let s = p.to_str().unwrap().to_string();
    let _ = crate::sut::call(|| {
        let v = vec![5u16, 6];
        v.write_to_file(&s).unwrap(); assert_eq!(<Vec<u16>>::read_from_file(s.as_str()).unwrap(), v);
        v.write_to_file(s.clone()).unwrap(); assert_eq!(<Vec<u16>>::read_from_file(p.as_os_str()).unwrap(), v);
    }).map_err(|_| cx.viol("C24|names", "strings and paths do not name the same file", &[]));
}

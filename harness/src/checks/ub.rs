//! C05: the workload which sanitizers and Miri watch. What it compares itself is only whether
//! decoded values are ones their types allow; everything else is the tools' business.
use super::read::{any_way, hostile, Case};
use super::write::{sink, VCase};
use crate::cx::*;
use crate::ops::*;
use crate::rng::*;
use crate::sut::*;

pub fn c05(cx: &mut Cx) {
    let av: Vec<String> = std::env::args().collect();
    let opt = |k: &str| av.iter().position(|a| a == k).map(|i| av[i + 1].clone());
    if let Some(p) = opt("--emit") { return emit(cx, &p); }
    if let Some(p) = opt("--run") { return replay(cx, &p, opt("--from").map_or(0, |x| x.parse().unwrap()), opt("--log").as_deref()); }
    let secs = cx.a.secs;
    let prog = crate::zoo::generated();
    if !prog { cx.a.secs = secs * 6 / 10; }
    zoo(cx);
    if prog { return; }
    if cx.a.shard == 0 { super::write::huge(cx); }
    // code which runs between speedy's own steps: reader programs, contexts, panics and failures
    // in the middle of arrays and collections
    let parts: [(&str, fn(&mut Cx)); 5] = [("reader programs", super::script::c12), ("stream programs", super::script::c19), ("panics and failures", super::drops::families), ("contexts", super::ctx::c20), ("varints", super::varint::c13)];
    let turn = cx.a.shard;
    let work = cx.a.work;
    let nv = cx.viols.len();
    for k in 0..parts.len() {
        let (name, f) = parts[(turn + k) % parts.len()];
        cx.a.secs = secs * 6 / 10 + secs * 4 / 10 * (k as u64 + 1) / parts.len() as u64;
        cx.a.work = work.max(20);
        let before = cx.evals;
        f(cx);
        let n = cx.evals - before;
        cx.count(&format!("executions of {name}"), n);
    }
    // how they behave is judged elsewhere
    cx.viols.truncate(nv);
}

// Cases for Miri are made natively, so that little but speedy itself is interpreted.
/// kind 3: write the value made from the seed, writable or not, into sink a.
/// Types for the machine's own byte order are compared with the model where it is another one.
/// kind 0: read by way a; 1: read from a buffer (copying if b), then write into sink a; 2: reader program of style a on kind b
#[derive(Default)]
struct Rec { kind: u32, op: u32, be: bool, a: u32, b: u32, off: u32, room: u32, chunk: u32, interrupt: u32, wide: bool, seed: u64, data: Vec<u8> }
fn put(o: &mut Vec<u8>, r: &Rec) {
    for x in [r.kind, r.op, r.be as u32, r.a, r.b, r.off, r.room, r.chunk, r.interrupt, r.wide as u32, r.seed as u32, (r.seed >> 32) as u32, r.data.len() as u32] { o.extend_from_slice(&x.to_le_bytes()); }
    o.extend_from_slice(&r.data);
}
fn take(d: &[u8], pos: &mut usize) -> Option<Rec> {
    if *pos >= d.len() { return None; }
    let mut g = || { let x = u32::from_le_bytes([d[*pos], d[*pos + 1], d[*pos + 2], d[*pos + 3]]); *pos += 4; x };
    let mut r = Rec { kind: g(), op: g(), be: g() == 1, a: g(), b: g(), off: g(), room: g(), chunk: g(), interrupt: g(), wide: g() == 1, seed: g() as u64 | (g() as u64) << 32, data: vec![] };
    let n = g() as usize;
    r.data = d[*pos..*pos + n].to_vec();
    *pos += n;
    Some(r)
}
fn emit(cx: &mut Cx, path: &str) {
    let all = crate::zoo::all();
    let mut mine: Vec<usize> = cx.ops(&all).into_iter().filter(|&i| !all[i].shape().regex).collect();
    let mut order = cx.rng(&[5, cx.a.shard as u64]);
    let mut recs = vec![];
    let mut n = 0u64;
    let wide_apart = cx.a.prop == "C23";
    let large = wide_apart && std::env::args().any(|a| a == "--large");
    if wide_apart { n += edges(cx, &all, &mut recs); if !large { n += halves(cx, &all, &mut recs); } }
    for round in 0..cx.a.work {
        for i in (1..mine.len()).rev() { let j = order.us(i + 1); mine.swap(i, j); }
        for &i in &mine {
            let op = &*all[i];
            let mut r = cx.rng(&[51, i as u64, round]);
            let be = r.bool() && op.supports(true) || !op.supports(false);
            // mostly what is accepted, for rejected input ends the path
            let mut d = vec![];
            let accept = !r.one_in(4);
            for _ in 0..20 {
                d = match r.below(4) { 0 => hostile(op, &mut r, be).0, 1 => { let b = *r.pick(&[10, 30, 120]); valid(op, &mut r, be, b) } _ => input(op, &mut r, be).0 };
                let x = op.refdec(be, true, &d);
                if !x.huge() && x.ok() == accept && (large || d.len() <= if r.one_in(10) { 400 } else { 80 } && x.max_len <= 500) { break; }
                d.clear();
            }
            if op.shape().zero_elems && op.refdec(be, true, &d).huge() { continue; }
            let p = Plan::random(&mut r);
            let off = if r.bool() { 0 } else { r.us(16) as u8 };
            let x = op.refdec(be, true, &d);
            let ok = x.ok();
            let mut rec = Rec { wide: x.wide, op: i as u32, be, off: off as u32, chunk: p.chunk as u32, interrupt: p.interrupt as u32, seed: p.seed, data: d.clone(), ..Rec::default() };
            if ok && r.one_in(3) {
                rec.kind = 1;
                rec.a = r.below(5) as u32;
                rec.b = (!op.shape().borrow && r.bool()) as u32;
                rec.room = if r.bool() { d.len() } else { r.us(d.len() + 3) } as u32;
            } else {
                // streams do more than buffers
                rec.a = match r.below(14) { k @ 0..=6 => k as u32, k => 5 + k as u32 % 2 };
            }
            put(&mut recs, &rec);
            n += 1;
            if wide_apart && r.one_in(2) { n += others(op, i, be, large, &mut r, &mut recs); }
            if !crate::zoo::generated() && r.one_in(12) {
                let style = r.below(4);
                let mut seed = r.u64();
                while !super::script::small(seed, style) { seed = r.u64(); }
                put(&mut recs, &Rec { kind: 2, a: style as u32, b: r.below(6) as u32, seed, ..Rec::default() });
                n += 1;
            }
        }
    }
    cx.evals = n;
    std::fs::write(path, &recs).unwrap();
}
/// Where machines and builds differ: numbers and lengths beyond 32 bits, values which must be refused.
fn others(op: &dyn Ops, i: usize, be: bool, large: bool, r: &mut Rng, recs: &mut Vec<u8>) -> u64 {
    if !op.supports(true) || !op.supports(false) { return 0; }
    let mut n = 0;
    let mut rec = Rec { op: i as u32, be, seed: r.u64(), chunk: r.us(9) as u32, ..Rec::default() };
    if r.bool() {
        rec.kind = 3;
        rec.b = if large { *r.pick(&[40, 600, 4000]) } else { *r.pick(&[10, 30]) };
        rec.a = r.below(5) as u32;
        let room = r.us(3);
        let mut skip = false;
        op.with_value(Rng::new(rec.seed), rec.b as i64, 0, &mut |v| {
            let e = v.wire(be);
            rec.room = (e.out.len() + room).saturating_sub(1) as u32;
            skip = e.out.len() > if large { 1 << 18 } else { 700 } || op.refdec(be, true, &e.out).wide;
        });
        if !skip { put(recs, &rec); n += 1; }
    } else {
        let mut d = valid(op, r, be, 30);
        if d.len() > 300 { return 0; }
        if r.bool() {
            let at: Vec<usize> = (0..d.len().saturating_sub(7)).filter(|&k| { let w: [u8; 8] = d[k..k + 8].try_into().unwrap(); (if be { u64::from_be_bytes(w) } else { u64::from_le_bytes(w) }) < 1 << 16 }).collect();
            if at.is_empty() { return 0; }
            let k = *r.pick(&at);
            let bit = 32 + r.us(32);
            d[if be { k + 7 - bit / 8 } else { k + bit / 8 }] ^= 1 << (bit % 8);
        } else {
            if d.is_empty() { return 0; }
            let k = if r.bool() { 0 } else { r.us(d.len()) };
            if d[k] > 127 { return 0; }
            let v = d[k] as u64 | 1 << (32 + r.us(32));
            d.splice(k..k + 1, crate::model::varint(v));
        }
        let x = op.refdec(be, true, &d);
        if x.huge() || x.max_len as u64 > 5000 && x.ok() { return 0; }
        rec.wide = x.wide;
        rec.a = r.below(7) as u32;
        rec.data = d;
        put(recs, &rec);
        n += 1;
    }
    n
}
/// Lengths and numbers of 64 bits which are refused for the upper half only, for all types in which there are any.
fn halves(cx: &mut Cx, all: &[Box<dyn Ops>], recs: &mut Vec<u8>) -> u64 {
    let mut n = 0;
    for (i, op) in all.iter().enumerate() {
        if i % 4 != cx.a.shard as usize % 4 || !op.supports(true) || !op.supports(false) || op.shape().regex { continue; }
        let op = &**op;
        let mut r = cx.rng(&[53, i as u64, (cx.a.shard / 4) as u64]);
        let mut found = 0;
        for _ in 0..30 {
            if found == 2 { break; }
            let be = r.bool();
            let d = valid(op, &mut r, be, 20);
            if d.len() > 120 || d.len() < 8 { continue; }
            let at: Vec<usize> = (0..d.len() - 7).filter(|&k| { let w: [u8; 8] = d[k..k + 8].try_into().unwrap(); (if be { u64::from_be_bytes(w) } else { u64::from_le_bytes(w) }) < 1 << 8 }).collect();
            for k in at {
                let mut d = d.clone();
                let bit = 32 + r.us(32);
                d[if be { k + 7 - bit / 8 } else { k + bit / 8 }] ^= 1 << (bit % 8);
                let x = op.refdec(be, true, &d);
                if x.ok() || x.huge() { continue; }
                put(recs, &Rec { wide: x.wide, op: i as u32, be, seed: r.u64(), chunk: r.us(9) as u32, a: r.below(7) as u32, data: d, ..Rec::default() });
                found += 1;
                n += 1;
                break;
            }
        }
    }
    n
}
/// Variable-length numbers of every length, read and written.
fn edges(cx: &mut Cx, all: &[Box<dyn Ops>], recs: &mut Vec<u8>) -> u64 {
    let mut r = cx.rng(&[52, cx.a.shard as u64]);
    let Some(i) = (0..all.len()).find(|&i| all[i].name().rsplit("::").next() == Some("VarInt64") && all[i].supports(true) && all[i].supports(false)) else { return 0 };
    let mut n = 0;
    for bits in (3..64).step_by(7).chain([0, 63]) {
        for kind in [0, 1] {
            let v = 1u64 << bits | r.u64() & ((1 << bits) - 1);
            let rec = Rec { kind, op: i as u32, be: r.bool(), a: r.below(if kind == 0 { 7 } else { 5 }) as u32, b: r.below(2) as u32, room: crate::model::varint(v).len() as u32, seed: r.u64(), data: crate::model::varint(v), ..Rec::default() };
            put(recs, &rec);
            n += 1;
        }
    }
    n
}
fn opt_label() -> String {
    let os = if cfg!(debug_assertions) { "with checks" } else { "without checks" };
    let t = if cfg!(target_endian = "big") { "Miri as s390x" } else if cfg!(target_pointer_width = "32") { "Miri as i686" } else { "Miri" };
    if cfg!(miri) { t.into() } else { os.into() }
}
fn sorted(b: &[u8]) -> Vec<u8> { let mut v = b.to_vec(); v.sort(); v }
/// What was written, but for the order of elements where that is up to a hasher; short and in full.
fn written(op: &dyn Ops, be: bool, r: W<Vec<u8>>) -> (String, String) {
    match r {
        Ok(Ok(b)) => {
            let same = if !op.shape().hashed { b.clone() } else { let x = op.refdec(be, false, &b); if x.ok() { x.canon } else { sorted(&b) } };
            (format!("Ok {} #{:x}", b.len(), hash_bytes(1, &same)), if cfg!(miri) { String::new() } else { hex(&b) })
        }
        Ok(Err(e)) => (format!("Err({:?})", speedy::private::get_error_kind(&e)), String::new()),
        Err(p) => (format!("Panic({p})"), String::new()),
    }
}
/// Reads by way a, the way C05 and C23 do.
fn one_read(op: &dyn Ops, rec: &Rec, be: bool, d: &[u8]) -> Out {
    let dflt = rec.seed & 1 == 0;
    if rec.a < 5 { op.read_buf(WAYS[rec.a as usize], dflt, be, d) } else {
        op.read_stream(rec.a == 6, dflt, be, &mut SimRead::new(d, Plan { chunk: rec.chunk as usize, interrupt: rec.interrupt as u64, seed: rec.seed, fault: None, times: 20_000 }))
    }
}
fn replay(cx: &mut Cx, path: &str, from: usize, log: Option<&str>) {
    use std::io::Write as _;
    let bytes = std::fs::read(path).unwrap();
    let mut log = log.map(|p| std::io::LineWriter::with_capacity(if cfg!(miri) { 0 } else { 1 << 16 }, std::fs::File::create(p).unwrap()));
    let all = crate::zoo::all();
    let mut seen = vec![false; all.len()];
    let mut n = [0u64; 20];
    let under = opt_label();
    let slow = std::env::var_os("HZ_TIMES").is_some();
    let (mut pos, mut k) = (0, 0);
    while let Some(rec) = take(&bytes, &mut pos) {
        k += 1;
        if k <= from { continue; }
        if cx.late() { break; }
        let _ = write!(std::io::stderr(), " {k}");
        let mut said = String::new();
        let t = std::time::Instant::now();
        if rec.kind == 2 {
            let (ops, what, got) = super::script::bare(rec.seed, rec.a as u64, rec.b as u64);
            n[9] += 1;
            n[10] += ops as u64;
            if log.is_some() { said = format!("P {what:x} {ops} {got:x}"); }
        } else {
            let op = &*all[rec.op as usize];
            let d = Placed::new(&rec.data, rec.off as usize);
            let (be, dflt) = (rec.be, rec.seed & 1 == 0);
            seen[rec.op as usize] = true;
            let wide = if rec.wide { "W" } else { "V" };
            let label = if log.is_some() && !cfg!(miri) { format!("\t{} [{}] be={be}", op.name(), op.ctx()) } else { String::new() };
            if !op.supports(be) {
                // a type for the machine's byte order, which is the other one here
                let mut r = Rng::new(rec.seed);
                let b = *r.pick(&[10, 30]);
                let d = if r.one_in(4) { let mut d = valid(op, &mut r, !be, b); let n = r.us(d.len() + 1); d.truncate(n); d } else { valid(op, &mut r, !be, b) };
                let d = Placed::new(&d, rec.off as usize);
                let x = op.refdec(!be, rec.kind == 1 || rec.a < 2, &d);
                let got = if rec.kind == 0 { one_read(op, &rec, !be, &d) } else { op.read_buf(Way::Buf, dflt, !be, &d) };
                let must_borrow = op.shape().borrow && rec.kind == 0 && rec.a >= 2;
                let same = match &got { Out::Ok(g) => x.ok() && g.canon == x.canon, Out::Err(_) => !x.ok() || must_borrow || d.as_ptr() as usize % 16 != 0, Out::Panic(_) => false };
                if !same { cx.viol(format!("{}|{}|other byte order", cx.a.prop, op.name()), format!("{} on a machine of the other byte order: reading {} gives {got:?} instead of {:?} {}", op.name(), hex(&d), x.res, hex(&x.canon)), &[("data", hexfull(&d))]); }
                if x.ok() && rec.kind == 1 {
                    op.read_then(Way::Buf, !be, &d, &mut |v| {
                        if op.shape().hashed { return; }
                        let w = v.to_vec(!be);
                        if !matches!(&w, Ok(Ok(b)) if *b == v.wire(!be).out) { cx.viol(format!("{}|{}|other byte order", cx.a.prop, op.name()), format!("{} on a machine of the other byte order: writing what {} decodes to gives {}", op.name(), hex(&d), written(op, !be, w).1), &[("data", hexfull(&d))]); }
                        n[8] += 1;
                    });
                }
                n[11] += 1;
                said = "N".into();
            } else if rec.kind == 0 {
                let out = one_read(op, &rec, be, &d);
                n[rec.a as usize] += 1;
                if let Out::Ok(g) = &out {
                    n[7] += 1;
                    if let Some(x) = g.invalid { cx.viol(format!("{}|{}|{}|invalid", cx.a.prop, op.name(), op.ctx()), format!("{} be={be}: reading {} gives an invalid value: {x}", op.name(), hex(&d)), &[("type", op.name().to_string()), ("data", hexfull(&d))]); }
                }
                if log.is_some() {
                    said = match &out { Out::Ok(g) => format!("{wide} Ok {:?} {} #{:x}", g.used, g.canon.len(), hash_bytes(2, &g.canon)), o => format!("{wide} {o:?}") };
                    if !label.is_empty() { said += &format!("{label} way {} of {}: {out:?}", rec.a, hex(&d)); }
                }
            } else {
                let mut res = ("not read".to_string(), String::new());
                let mut write = |v: &dyn Val| {
                    v.dflt(dflt);
                    let w: W<Vec<u8>> = match rec.a {
                        0 => v.to_vec(be),
                        1 => v.to_vec_mut(be),
                        2 | 3 => { let mut b = vec![0u8; rec.room as usize]; let r = if rec.a == 2 { v.to_buf(be, &mut b) } else { v.to_buf_mut(be, &mut b) }; r.map(|r| r.map(|_| b)) }
                        _ => { let mut s = SimWrite::new(Plan { chunk: rec.chunk as usize, interrupt: 0, seed: rec.seed, fault: None, times: 20_000 }); let r = v.to_stream(be, &mut s); r.map(|r| r.map(|_| s.out)) }
                    };
                    n[8] += 1;
                    if log.is_some() { res = written(op, be, w); res.0 += &format!(", needs {:?}", v.bytes_needed(be).map(|r| r.ok())); } else { std::hint::black_box(&w); }
                };
                if rec.kind == 3 { op.with_value(Rng::new(rec.seed), rec.b as i64, 0, &mut write) } else { op.read_then(if rec.b == 0 { Way::Buf } else { Way::Copy }, be, &d, &mut write); }
                if log.is_some() {
                    said = format!("{wide} {}", res.0);
                    if !label.is_empty() { said += &format!("{label} writing by way {} into {} {}: {} {}", rec.a, rec.room, if rec.kind == 3 { format!("value {}/{}", rec.seed, rec.b) } else { format!("what {} means", hex(&d)) }, res.0, res.1); }
                }
            }
        }
        if slow { eprintln!("TIME {:?} {}", t.elapsed(), said); }
        if let Some(l) = &mut log { writeln!(l, "{k} {said}").unwrap(); }
        cx.evals += 1;
        cx.distinct.insert((cx.a.shard as u64) << 32 | k as u64);
    }
    for (i, l) in ["read_from_buffer", "read_with_length_from_buffer", "copying reads", "copying reads with length", "copying reads with &mut context", "unbuffered streams", "buffered streams", "values decoded", "values written", "reader programs", "operations of reader programs", "cases for the machine's own byte order, other than x86's"].iter().enumerate() { cx.count(&format!("{under}: {l}"), n[i]); }
    cx.count(&format!("{under}: types"), seen.iter().filter(|x| **x).count() as u64);
    if crate::zoo::generated() || cx.a.prop != "C05" { return; }
    // failures and panics in the middle of containers
    let (before, secs) = (cx.evals, cx.a.secs);
    cx.a.secs += secs / 4;
    cx.a.work = 1;
    while !cx.late() { super::drops::families(cx); cx.a.seed += 1000; }
    let n = cx.evals - before;
    cx.count("Miri: failures and panics inside containers", n);
    cx.viols.retain(|v| v.sig.starts_with("C05|"));
}
fn zoo(cx: &mut Cx) {
    let all = crate::zoo::all();
    let mut mine = cx.ops(&all);
    let mut order = cx.rng(&[5, cx.a.shard as u64]);
    for i in (1..mine.len()).rev() { let j = order.us(i + 1); mine.swap(i, j); }
    let slow = std::env::var_os("HZ_TIMES").is_some();
    let mut seen = vec![0u32; all.len()];
    'rounds: for round in 0.. {
        if !cfg!(miri) && round >= cx.a.work { break; }
        for &i in &mine {
            if cx.late() { break 'rounds; }
            let op = &*all[i];
            let mut r = cx.rng(&[50, i as u64, round]);
            let t = std::time::Instant::now();
            for k in 0..4u64 {
                let be = if op.supports(true) && op.supports(false) { r.bool() } else { op.supports(true) };
                if k == 3 { write(cx, i, op, be, &mut r); continue; }
                let (d, label) = if k == 1 { hostile(op, &mut r, be) } else { input(op, &mut r, be) };
                let off = if r.bool() { 0 } else { r.us(16) };
                let case = format!("{} [{}] be={be} {label}", op.name(), op.ctx());
                let mut c = Case { i, op, be, d: Placed::new(&d, off), label, case, r: Rng::new(r.u64()) };
                if op.shape().zero_elems && op.refdec(be, true, &c.d).huge() { continue; }
                about_to(&c.case, unsafe { std::mem::transmute::<&[u8], &[u8]>(&c.d) });
                if cfg!(miri) && slow { eprintln!("{} {}", c.case, hexfull(&c.d)); }
                let ran = any_way(cx, &mut c);
                if let Out::Ok(g) = &ran.out {
                    cx.count("values looked at", 1);
                    if let Some(x) = g.invalid { cx.viol(format!("C05|{}|{}|invalid", op.name(), op.ctx()), format!("{}: {} of {} gives an invalid value: {x}", c.case, ran.how, hex(&c.d)), &[("type", op.name().to_string()), ("data", hexfull(&c.d))]); }
                } else { cx.count("reads which failed", 1); }
                cx.count(&format!("reads: {}", ran.how.split(' ').take(2).collect::<Vec<_>>().join(" ")), 1);
                cx.eval(key(i, be, &c.d), c.d.len() > 0);
                about_to("", &[]);
            }
            seen[i] += 1;
            if slow { eprintln!("TIME {} {:?}", op.name(), t.elapsed()); }
        }
    }
    let n = seen.iter().filter(|&&n| n > 0).count() as u64;
    cx.count("types exercised", n);
}
fn write(cx: &mut Cx, i: usize, op: &dyn Ops, be: bool, r: &mut Rng) {
    let budget = budget(r);
    let vseed = r.u64();
    let case = format!("{} [{}] be={be} value {vseed}/{budget}", op.name(), op.ctx());
    let text = case.clone();
    let mut c = VCase { i, op, be, r: Rng::new(r.u64()), case, vseed, budget, flags: 0 };
    about_to(&text, &[]);
    op.with_value(Rng::new(vseed), budget, 0, &mut |v| {
        let want = v.wire(be);
        let kinds = if cfg!(miri) || !c.r.one_in(4) { 5 } else { 6 };
        let k = c.r.us(kinds);
        let room = if c.r.bool() { want.out.len() } else { c.r.us(want.out.len() + 3) };
        let _ = sink(cx, &mut c, v, k, room);
        cx.count("values written", 1);
        cx.eval(key(i, be, &want.out) ^ 5, !want.out.is_empty());
    });
    about_to("", &[]);
}

//! Checks of what reading does with any byte string.
use crate::cx::*;
use crate::model::*;
use crate::ops::*;
use crate::rng::*;
use crate::sut::*;
use speedy::private::{get_error_kind, ErrorKind};
use speedy::IsEof;
use std::io;

fn rep(op: &dyn Ops, be: bool, how: &str, d: &[u8]) -> Vec<(&'static str, String)> {
    vec![("type", op.name().to_string()), ("ctx", op.ctx().to_string()), ("big_endian", be.to_string()), ("how", how.to_string()), ("data", hexfull(d))]
}
/// Everything a check needs to know about one way of reading one input.
pub struct Ran { pub how: String, pub borrows: bool, pub out: Out, pub pos: Option<usize>, pub stream: Option<(u64, u64)> }

pub fn run_way(op: &dyn Ops, w: Way, dflt: bool, be: bool, d: &[u8]) -> Ran {
    Ran { how: format!("{w:?}{}", if dflt { "(default ctx)" } else { "" }), borrows: w.borrows(), out: op.read_buf(w, dflt, be, d), pos: None, stream: None }
}
pub fn run_stream(op: &dyn Ops, buffered: bool, dflt: bool, be: bool, d: &[u8], plan: Plan) -> Ran {
    let how = format!("{} {plan:?}", if buffered { "buffered stream" } else { "unbuffered stream" });
    let mut s = SimRead::new(d, plan);
    let out = op.read_stream(buffered, dflt, be, &mut s);
    Ran { how, borrows: false, out, pos: Some(s.pos), stream: Some((s.calls, s.interrupts)) }
}
pub fn run_file(cx: &Cx, op: &dyn Ops, dflt: bool, be: bool, d: &[u8]) -> Ran {
    let p = cx.scratch("in.bin");
    std::fs::write(&p, d).unwrap();
    let out = op.read_file(dflt, be, &p);
    Ran { how: "file".into(), borrows: false, out, pos: None, stream: None }
}

pub(super) struct Case<'c> { pub i: usize, pub op: &'c dyn Ops, pub be: bool, pub d: Placed, pub label: &'static str, pub case: String, pub r: Rng }
/// Runs `f` over inputs for every type of this shard.
pub(super) fn each_input(cx: &mut Cx, per_type: u64, skip: impl Fn(&dyn Ops) -> bool, make: impl Fn(&dyn Ops, &mut Rng, bool) -> (Vec<u8>, &'static str), mut f: impl FnMut(&mut Cx, &mut Case)) {
    let all = crate::zoo::all();
    let mine = cx.ops(&all);
    for round in 0..8u64 {
        for &i in &mine {
            let op = &*all[i];
            if skip(op) { continue; }
            let mut r = cx.rng(&[i as u64, round]);
            let n = per_type * cx.a.work / 800;
            for _ in 0..n.max(1) {
                let be = if op.supports(true) && op.supports(false) { r.bool() } else { op.supports(true) };
                let (d, label) = make(op, &mut r, be);
                let off = if r.bool() { 0 } else { r.us(16) };
                let case = format!("{} [{}] be={be} {label}", op.name(), op.ctx());
                let mut c = Case { i, op, be, d: Placed::new(&d, off), label, case, r: Rng::new(r.u64()) };
                // lengths of billions of elements which take no bytes: out of scope
                if op.shape().zero_elems && op.refdec(be, true, &c.d).huge() { cx.count("skipped: zero-size elements in bulk", 1); continue; }
                about_to(&c.case, unsafe { std::mem::transmute::<&[u8], &[u8]>(&c.d) });
                f(cx, &mut c);
                about_to("", &[]);
            }
            if cx.late() { return; }
        }
    }
}
fn note(cx: &mut Cx, c: &Case, ok: bool) {
    cx.count(if ok { "inputs accepted" } else { "inputs rejected" }, 1);
    cx.count(&format!("inputs {}", c.label), 1);
    cx.eval(key(c.i, c.be, &c.d), c.d.len() > 0);
    cx.sample(|| format!("{} {} -> {}", c.case, hex(&c.d), if ok { "accepted" } else { "rejected" }));
}
pub(super) fn any_way(cx: &Cx, c: &mut Case) -> Ran {
    let dflt = c.r.bool();
    match c.r.below(if cfg!(miri) { 9 } else { 10 }) {
        k @ 0..=4 => run_way(c.op, WAYS[k as usize], dflt, c.be, &c.d),
        5 | 6 => { let p = Plan::random(&mut c.r); run_stream(c.op, false, dflt, c.be, &c.d, p) }
        7 | 8 => { let p = Plan::random(&mut c.r); run_stream(c.op, true, dflt, c.be, &c.d, p) }
        _ => if c.r.one_in(4) { run_file(cx, c.op, dflt, c.be, &c.d) } else { run_way(c.op, Way::BufLen, dflt, c.be, &c.d) },
    }
}
fn all_ways(cx: &Cx, c: &mut Case, with_file: bool) -> Vec<Ran> {
    let dflt = c.r.bool();
    let mut v: Vec<Ran> = WAYS.iter().map(|&w| run_way(c.op, w, dflt, c.be, &c.d)).collect();
    for b in [false, true] {
        v.push(run_stream(c.op, b, dflt, c.be, &c.d, Plan::whole()));
        let p = Plan::random(&mut c.r);
        v.push(run_stream(c.op, b, !dflt, c.be, &c.d, p));
    }
    if with_file && !cfg!(miri) { v.push(run_file(cx, c.op, dflt, c.be, &c.d)); }
    v
}

/// C08: accepted exactly when the reference decoder accepts, with the value it denotes.
pub fn c08(cx: &mut Cx) {
    each_input(cx, 2600, |_| false, input, |cx, c| {
        let ran = any_way(cx, c);
        let want = c.op.refdec(c.be, ran.borrows, &c.d);
        if want.huge() { cx.count("skipped: zero-size elements in bulk", 1); return; }
        let sig = |k: &str| format!("C08|{}|{}|{k}", c.op.name(), c.op.ctx());
        match (&ran.out, want.ok()) {
            (Out::Ok(g), true) => {
                if let Some(x) = g.invalid { cx.viol(sig("invalid"), format!("{}: read {} from {} gave an invalid value: {x}", c.case, ran.how, hex(&c.d)), &rep(c.op, c.be, &ran.how, &c.d)); }
                else if g.canon != want.canon { cx.viol(sig("value"), format!("{}: {} of {} gave {} instead of {}", c.case, ran.how, hex(&c.d), hex(&g.canon), hex(&want.canon)), &rep(c.op, c.be, &ran.how, &c.d)); }
            }
            (Out::Ok(g), false) => cx.viol(sig("accepts"), format!("{}: {} accepts {} as {} but it is not an encoding ({:?})", c.case, ran.how, hex(&c.d), hex(&g.canon), want.res), &rep(c.op, c.be, &ran.how, &c.d)),
            (Out::Err(e), true) => cx.viol(sig("rejects"), format!("{}: {} rejects the valid encoding {}: {:?}", c.case, ran.how, hex(&c.d), get_error_kind(e)), &rep(c.op, c.be, &ran.how, &c.d)),
            (Out::Err(_), false) => {}
            (Out::Panic(m), _) => cx.viol(sig("panic"), format!("{}: {} of {} panics: {m}", c.case, ran.how, hex(&c.d)), &rep(c.op, c.be, &ran.how, &c.d)),
        }
        if let Err(DErr::Invalid(w)) = want.res { cx.count(&format!("invalid: {w}"), 1); }
        note(cx, c, want.ok());
    });
}

/// C04: every way of reading gives the same outcome.
pub fn c04(cx: &mut Cx) {
    if !crate::zoo::generated() { super::misc::default_on_eof_probes(cx, "C04"); }
    each_input(cx, 420, |_| false, input, |cx, c| {
        let s = c.op.shape();
        let with_file = c.r.one_in(3);
        let rs = all_ways(cx, c, with_file);
        let sig = |k: &str| format!("C04|{}|{}|{k}", c.op.name(), c.op.ctx());
        // zero-size elements and lengths of billions: out of scope
        cx.count("executions", rs.len() as u64);
        for grp in [true, false] {
            let g: Vec<&Ran> = rs.iter().filter(|r| !s.borrow || r.borrows == grp).collect();
            let first = g[0];
            for x in &g[1..] {
                let same = match (&first.out, &x.out) { (Out::Ok(a), Out::Ok(b)) => a.canon == b.canon && a.invalid == b.invalid, (Out::Err(_), Out::Err(_)) => true, _ => false };
                if !same {
                    cx.viol(sig("differ"), format!("{}: {} : {} gives {:?} but {} gives {:?}", c.case, hex(&c.d), first.how, first.out, x.how, x.out), &rep(c.op, c.be, &x.how, &c.d));
                }
            }
            let used: Vec<usize> = g.iter().filter_map(|r| if let Out::Ok(g) = &r.out { g.used } else { None }).collect();
            if used.windows(2).any(|w| w[0] != w[1]) { cx.viol(sig("length"), format!("{}: {} : reported lengths differ: {used:?}", c.case, hex(&c.d)), &rep(c.op, c.be, "lengths", &c.d)); }
            if !s.borrow { break; }
        }
        if s.borrow {
            let b = rs.iter().find(|r| r.borrows).unwrap();
            for x in rs.iter().filter(|r| !r.borrows) {
                if let Out::Ok(g) = &x.out {
                    let ok = match &b.out { Out::Ok(h) => h.canon == g.canon, _ => false } && !g.refs.iter().any(|r| r.must);
                    if !ok { cx.viol(sig("unsized"), format!("{}: {} : {} accepts a value with borrowed parts or which borrowing reads see differently ({:?})", c.case, hex(&c.d), x.how, x.out), &rep(c.op, c.be, &x.how, &c.d)); }
                }
            }
        }
        note(cx, c, rs[0].out.is_ok());
    });
}

/// C09: exactly one message is consumed and nothing after it matters.
pub fn c09(cx: &mut Cx) {
    each_input(cx, 500, |_| false, |op, r, be| { let b = budget(r); let mut d = valid(op, r, be, b); let l = if r.one_in(3) { mutate(r, &mut d); "mutated" } else { "valid" }; (d, l) }, |cx, c| {
        let sig = |k: &str| format!("C09|{}|{}|{k}", c.op.name(), c.op.ctx());
        let base = run_way(c.op, Way::BufLen, false, c.be, &c.d);
        let Out::Ok(g) = &base.out else { note(cx, c, false); return };
        let used = g.used.unwrap();
        if c.label == "valid" && used != c.d.len() { cx.viol(sig("short"), format!("{}: reading the encoding {} consumes {used} of its {} bytes", c.case, hex(&c.d), c.d.len()), &rep(c.op, c.be, "BufLen", &c.d)); return; }
        if used > c.d.len() { cx.viol(sig("over"), format!("{}: {} reports {used} bytes of {}", c.case, hex(&c.d), c.d.len()), &rep(c.op, c.be, "BufLen", &c.d)); return; }
        if c.op.shape().open {
            // nothing can follow these
            if c.label == "valid" && !c.op.shape().borrow {
                for way in [Way::CopyLen, Way::CopyMut] {
                    let x = run_way(c.op, way, false, c.be, &c.d);
                    match &x.out { Out::Ok(h) if h.used == Some(used) && h.canon == g.canon => {} o => cx.viol(sig("open"), format!("{}: {} is read whole by a borrowing read, but {} gives {o:?}", c.case, hex(&c.d), x.how), &rep(c.op, c.be, &x.how, &c.d)) }
                }
            }
            note(cx, c, true);
            return;
        }
        // the consumed prefix alone, and with other bytes behind it
        let mut tails: Vec<Vec<u8>> = vec![vec![], vec![0; 3], vec![0xFF; 40], (0..c.r.us(60)).map(|_| c.r.u64() as u8).collect()];
        tails.push(c.d.to_vec());
        for t in &tails {
            let mut v = c.d[..used].to_vec();
            v.extend_from_slice(t);
            let off = c.d.as_ptr() as usize;
            let p = Placed::new(&v, off);
            let borrowing = c.op.shape().borrow;
            let mut rs = vec![run_way(c.op, Way::BufLen, false, c.be, &p)];
            if !borrowing {
                rs.push(run_way(c.op, Way::CopyLen, false, c.be, &p));
                rs.push(run_way(c.op, Way::CopyMut, false, c.be, &p));
                let plan = Plan::random(&mut c.r);
                rs.push(run_stream(c.op, false, false, c.be, &p, plan));
                let plan = Plan::random(&mut c.r);
                rs.push(run_stream(c.op, true, false, c.be, &p, plan));
            }
            for x in &rs {
                cx.count("executions", 1);
                match &x.out {
                    Out::Ok(h) => {
                        if h.canon != g.canon { cx.viol(sig("value"), format!("{}: {} followed by {} reads as {} by {}, without as {}", c.case, hex(&c.d[..used]), hex(t), hex(&h.canon), x.how, hex(&g.canon)), &rep(c.op, c.be, &x.how, &v)); }
                        if let Some(u) = h.used { if u != used { cx.viol(sig("count"), format!("{}: {} followed by {}: {} reports {u} bytes, not {used}", c.case, hex(&c.d[..used]), hex(t), x.how), &rep(c.op, c.be, &x.how, &v)); } }
                        if x.how.starts_with("unbuffered") && x.pos != Some(used) { cx.viol(sig("stream"), format!("{}: {} followed by {}: {} leaves the stream at {:?}, not {used}", c.case, hex(&c.d[..used]), hex(t), x.how, x.pos), &rep(c.op, c.be, &x.how, &v)); }
                    }
                    o => cx.viol(sig("reject"), format!("{}: {} followed by {} is rejected by {}: {o:?}", c.case, hex(&c.d[..used]), hex(t), x.how), &rep(c.op, c.be, &x.how, &v)),
                }
            }
        }
        note(cx, c, true);
    });
    // concatenations of messages of different types
    let all = crate::zoo::all();
    let n = 2600 * cx.a.work / 100;
    for k in 0..n {
        let mut r = cx.rng(&[9001, k, cx.a.shard as u64]);
        let be = r.bool();
        let mut msgs = vec![];
        let mut cat = vec![];
        for _ in 0..2 + r.us(6) {
            let i = r.us(all.len());
            let op = &*all[i];
            let s = op.shape();
            if s.open || s.borrow || !op.supports(be) { continue; }
            let b = budget(&mut r);
            let d = valid(op, &mut r, be, b);
            let mut canon = None;
            if let Out::Ok(g) = op.read_buf(Way::Copy, false, be, &d) { canon = Some(g.canon) }
            msgs.push((i, cat.len(), cat.len() + d.len(), canon));
            cat.extend_from_slice(&d);
        }
        let plan = Plan::random(&mut r);
        let mut s = SimRead::new(&cat, plan.clone());
        let mut at = 0;
        for (i, _, end, canon) in &msgs {
            let op = &*all[*i];
            // each message once through the shared stream, once through the rest of the buffer
            let a = op.read_stream(false, false, be, &mut s);
            let b = op.read_buf(if r.bool() { Way::CopyLen } else { Way::BufLen }, false, be, &cat[at..]);
            let ok = match (&a, &b, canon) { (Out::Ok(a), Out::Ok(b), Some(c)) => &a.canon == c && &b.canon == c && b.used == Some(end - at), _ => false };
            if !ok || s.pos != *end {
                cx.viol(format!("C09|{}|concat", op.name()), format!("message {} at {at}..{end} of a concatenation {}: stream gives {a:?} (stream at {}), buffer gives {b:?}", op.name(), hex(&cat), s.pos), &rep(op, be, "concatenation", &cat));
                break;
            }
            at = *end;
            cx.count("messages in concatenations", 1);
        }
        cx.eval(hash_bytes(9, &cat), msgs.len() > 1);
        if cx.late() { return; }
    }
}

/// C11: every proper prefix is rejected, or defaulted where that was asked for.
pub fn c11(cx: &mut Cx) {
    if !crate::zoo::generated() { super::misc::default_on_eof_probes(cx, "C11"); }
    each_input(cx, 130, |_| false, |op, r, be| { let b = budget(r); (valid(op, r, be, b), "valid") }, |cx, c| {
        let sig = |k: &str| format!("C11|{}|{}|{k}", c.op.name(), c.op.ctx());
        let s = c.op.shape();
        let n = c.d.len();
        let cuts: Vec<usize> = if n <= 40 { (0..n).collect() } else { let mut v: Vec<usize> = (0..12).collect(); v.extend((n - 12)..n); for _ in 0..16 { v.push(c.r.us(n)); } for e in [8190usize, 8191, 8192, 8193] { if e < n { v.push(e) } } v };
        for cut in cuts {
            let p = Placed::new(&c.d[..cut], c.d.as_ptr() as usize);
            let dflt = c.r.bool();
            let mut rs = vec![run_way(c.op, *c.r.pick(&WAYS), dflt, c.be, &p)];
            if c.r.bool() { rs.push(run_way(c.op, *c.r.pick(&WAYS), dflt, c.be, &p)); }
            let plan = Plan::random(&mut c.r);
            let b = c.r.bool();
            rs.push(run_stream(c.op, b, dflt, c.be, &p, plan));
            if c.r.one_in(60) && !cfg!(miri) { rs.push(run_file(cx, c.op, dflt, c.be, &p)); }
            for x in &rs {
                cx.count("truncated reads", 1);
                let want = if s.open { Some(c.op.refdec(c.be, x.borrows, &p)) } else { None };
                if want.as_ref().map_or(false, |w| w.huge()) { continue; }
                match (&x.out, want) {
                    (Out::Err(_), None) => {}
                    (Out::Err(_), Some(w)) if !w.ok() => {}
                    (Out::Ok(g), Some(w)) if w.ok() && g.canon == w.canon => { if w.defaulted { cx.count("fields defaulted at end of input", 1) } else { cx.count("open-ended reads accepted", 1) } }
                    (o, w) => cx.viol(sig("prefix"), format!("{}: the first {cut} of {n} bytes, {}: {} gives {o:?}, expected {}", c.case, hex(&p), x.how, match w { None => "an error".to_string(), Some(w) => if w.ok() { format!("{} (EOF default)", hex(&w.canon)) } else { format!("an error ({:?})", w.res) } }), &rep(c.op, c.be, &x.how, &p)),
                }
            }
            cx.eval(hash_bytes(key(c.i, c.be, &c.d), &[cut as u8, (cut >> 8) as u8]), true);
        }
        // an I/O error inside an open-ended field is not an end of input
        if s.open && n > 0 {
            for _ in 0..4 {
                let at = c.r.us(n);
                let kind = *c.r.pick(&FAULTS);
                let mut plan = Plan::random(&mut c.r);
                plan.fault = Some((at, kind));
                let b = c.r.bool();
                let mut s = SimRead::new(&c.d, plan.clone());
                let out = c.op.read_stream(b, false, c.be, &mut s);
                cx.count("faults inside open-ended reads", 1);
                let ok = match &out { Out::Err(e) => !s.faulted || matches!(get_error_kind(e), ErrorKind::IoError(x) if x.kind() == kind), Out::Ok(_) => !s.faulted, Out::Panic(_) => false };
                if !ok { cx.viol(sig("fault"), format!("{}: I/O error {kind:?} at byte {at} of {} ({}buffered) gives {out:?}", c.case, hex(&c.d), if b { "" } else { "un" }), &rep(c.op, c.be, &format!("fault {plan:?}"), &c.d)); }
            }
        }
        cx.count("encodings cut", 1);
        cx.sample(|| format!("{} every prefix of {}", c.case, hex(&c.d)));
    });
}

/// C14: minimum_bytes_needed never exceeds an encoding and never decides alone.
pub fn c14(cx: &mut Cx) {
    let all = crate::zoo::all();
    for i in cx.ops(&all) {
        let op = &*all[i];
        let (min, s) = (op.min_bytes(), op.shape());
        cx.count("types", 1);
        if min > s.min { cx.viol(format!("C14|{}|{}|shape", op.name(), op.ctx()), format!("{} [{}]: minimum_bytes_needed() is {min} but the shortest encoding has {} bytes", op.name(), op.ctx(), s.min), &rep(op, false, "minimum", &[])); }
    }
    each_input(cx, 1300, |_| false, input, |cx, c| {
        let sig = |k: &str| format!("C14|{}|{}|{k}", c.op.name(), c.op.ctx());
        let (min, s) = (c.op.min_bytes(), c.op.shape());
        if c.label == "valid" {
            if c.d.len() < min { cx.viol(sig("long"), format!("{}: minimum_bytes_needed() is {min} but {} is a valid encoding", c.case, hex(&c.d)), &rep(c.op, c.be, "minimum", &c.d)); }
            if s.fixed && c.d.len() < s.min { panic!("reference shape of {} is wrong", c.op.name()); }
            cx.count("valid encodings measured", 1);
        }
        let off = c.d.as_ptr() as usize;
        // inputs around the minimum: what the bound rejects, a stream must reject too
        for k in [min.wrapping_sub(1), min.wrapping_sub(2), min / 2, 0, c.d.len()] {
            if k > c.d.len() { continue; }
            let p = Placed::new(&c.d[..k], off);
            let way = *c.r.pick(&WAYS);
            let x = run_way(c.op, way, false, c.be, &p);
            let Out::Err(e) = &x.out else { cx.count("above the minimum", 1); continue };
            let too_small = matches!(get_error_kind(e), ErrorKind::InputBufferIsTooSmall { .. });
            if !too_small { continue; }
            cx.count("rejected by the bound", 1);
            if s.borrow && !x.borrows { continue; }
            let st = if s.borrow { // only the reference can tell for types streams cannot read
                c.op.refdec(c.be, true, &p).ok()
            } else {
                let plan = Plan::random(&mut c.r);
                let b = c.r.bool();
                run_stream(c.op, b, false, c.be, &p, plan).out.is_ok()
            };
            if st { cx.viol(sig("bound"), format!("{}: a buffer of {k} bytes {} is rejected as shorter than {min}, but the same bytes are accepted from a stream", c.case, hex(&p)), &rep(c.op, c.be, &x.how, &p)); }
        }
        note(cx, c, c.label == "valid");
    });
}

/// C15: borrowed data lies in the input where its encoding is, other data does not.
pub fn c15(cx: &mut Cx) {
    each_input(cx, 900, |_| false, |op, r, be| { let b = budget(r); let mut d = valid(op, r, be, b); if r.one_in(4) { mutate(r, &mut d); } if r.bool() { for _ in 0..r.us(9) { d.push(0) } } (d, "valid or mutated") }, |cx, c| {
        let sig = |k: &str| format!("C15|{}|{}|{k}", c.op.name(), c.op.ctx());
        let s = c.op.shape();
        let (lo, hi) = (c.d.as_ptr() as usize, c.d.as_ptr() as usize + c.d.len());
        let inside = |a: usize, n: usize| n > 0 && a < hi && a + n > lo;
        let pure_ref = matches!(c.op.name(), "&'a str" | "&'a [u8]" | "&'a [i8]" | "Cow<'a, str>" | "Cow<'a, [u8]>" | "Cow<'a, [i8]>" | "&'a [u8; 5]" | "&'a [i8; 1]" | "&'a [u16]" | "&'a [u32; 4]");
        let mut ok_any = false;
        for way in [Way::Buf, Way::BufLen, Way::Copy, Way::CopyLen] {
            let dflt = c.r.bool();
            let (x, mem) = if pure_ref && way.borrows() {
                // count what the read itself allocates, not our looking at it
                let base = measured(usize::MAX / 2, || c.op.read_buf(way, dflt, c.be, &c.d));
                (Ran { how: format!("{way:?}"), borrows: true, out: base.0, pos: None, stream: None }, Some(base.1))
            } else { (run_way(c.op, way, dflt, c.be, &c.d), None) };
            let Out::Ok(g) = &x.out else { continue };
            ok_any = true;
            let _ = mem;
            if let Some(v) = g.invalid { cx.viol(sig("invalid"), format!("{}: {} of {} : {v}", c.case, x.how, hex(&c.d)), &rep(c.op, c.be, &x.how, &c.d)); }
            for r in &g.refs { if r.borrowed { cx.count("borrowed parts", 1) } else { cx.count("owned Cow parts", 1) } }
            if !x.borrows {
                let bad = g.refs.iter().any(|r| r.borrowed && (r.must || r.len > 0)) || g.owned.iter().any(|&(a, n)| inside(a, n)) || g.refs.iter().any(|r| inside(r.addr, r.len));
                if bad { cx.viol(sig("copying"), format!("{}: {} of {} returns data which refers to its source", c.case, x.how, hex(&c.d)), &rep(c.op, c.be, &x.how, &c.d)); }
                continue;
            }
            if g.owned.iter().any(|&(a, n)| inside(a, n)) { cx.viol(sig("owned"), format!("{}: {} of {} returns owned data inside the caller's buffer", c.case, x.how, hex(&c.d)), &rep(c.op, c.be, &x.how, &c.d)); }
            let want = c.op.refdec(c.be, true, &c.d);
            if !want.ok() { continue; }
            for r in &g.refs {
                if !r.borrowed {
                    continue;
                }
                if r.len == 0 { continue; }
                if r.addr < lo || r.addr + r.len > hi { cx.viol(sig("outside"), format!("{}: {} of {} borrows {} bytes from outside the buffer", c.case, x.how, hex(&c.d), r.len), &rep(c.op, c.be, &x.how, &c.d)); continue; }
                let at = r.addr - lo;
                if !want.refs.iter().any(|w| w.0 == at && w.1 == r.len && w.2 == r.esize) { cx.viol(sig("place"), format!("{}: {} of {} borrows bytes {at}..{} but no such part is encoded there ({:?})", c.case, x.how, hex(&c.d), at + r.len, want.refs), &rep(c.op, c.be, &x.how, &c.d)); }
                if r.addr % r.align != 0 { cx.viol(sig("align"), format!("{}: {} of {} borrows a misaligned slice", c.case, x.how, hex(&c.d)), &rep(c.op, c.be, &x.how, &c.d)); }
            }
            if !s.hashed {
                // promised zero-copy parts must be borrowed
                let need = want.refs.iter().filter(|w| w.4 >= 1).count();
                let have = g.refs.iter().filter(|r| r.borrowed && r.esize == 1 || r.must).count();
                if have < need { cx.viol(sig("copied"), format!("{}: {} of {} borrows {have} parts where {need} promise zero-copy", c.case, x.how, hex(&c.d)), &rep(c.op, c.be, &x.how, &c.d)); }
            }
        }
        // streams never hand out the source's memory
        if c.r.one_in(3) && !s.borrow {
            let b = c.r.bool();
            let x = run_stream(c.op, b, false, c.be, &c.d, Plan::whole());
            if let Out::Ok(g) = &x.out { if g.refs.iter().any(|r| r.borrowed && r.len > 0) || g.owned.iter().any(|&(a, n)| inside(a, n)) { cx.viol(sig("stream"), format!("{}: {} of {} returns data which refers to its source", c.case, x.how, hex(&c.d)), &rep(c.op, c.be, &x.how, &c.d)); } cx.count("stream reads inspected", 1) }
        }
        note(cx, c, ok_any);
    });
    if !crate::zoo::generated() { crate::checks::misc::zero_copy_allocs(cx); }
}

/// C22: is_eof, conversions and messages.
pub fn c22(cx: &mut Cx) {
    let pad = vec![0u8; 6_000];
    each_input(cx, 500, |op| op.shape().open, |op, r, be| { let b = *r.pick(&[20i64, 60, 300]); let d = valid(op, r, be, b); (d, "valid") }, |cx, c| {
        let sig = |k: &str| format!("C22|{}|{}|{k}", c.op.name(), c.op.ctx());
        let s = c.op.shape();
        let min = c.op.min_bytes();
        let n = c.d.len();
        // the data ends before the value does
        if n > 0 && !c.d.is_empty() {
            let cut = c.r.us(n);
            let p = Placed::new(&c.d[..cut], c.d.as_ptr() as usize);
            if s.borrow && c.op.refdec(c.be, true, &p).invalid() { return; }
            let dflt = c.r.bool();
            let mut rs = vec![run_way(c.op, *c.r.pick(&WAYS), dflt, c.be, &p)];
            let (b, plan) = (c.r.bool(), Plan::random(&mut c.r));
            rs.push(run_stream(c.op, b, dflt, c.be, &p, plan));
            for (k, x) in rs.into_iter().enumerate() {
                if s.borrow && !x.borrows { continue; }
                let how = x.how.clone();
                match x.out {
                    Out::Err(e) => {
                        let small = if let ErrorKind::InputBufferIsTooSmall { actual_size, expected_size } = get_error_kind(&e) { Some((*actual_size, *expected_size)) } else { None };
                        let ok = match small { Some((a, x)) => k == 0 && cut < min && a == cut && x == min && !e.is_eof(), None => e.is_eof() && (k == 1 || cut >= min) };
                        if !ok { cx.viol(sig("eof"), format!("{}: {how} of the first {cut} bytes {} fails with {:?}, is_eof {}", c.case, hex(&p), get_error_kind(&e), e.is_eof()), &rep(c.op, c.be, &how, &p)); }
                        cx.count("end-of-input errors", 1);
                        convert(cx, c.op, e);
                    }
                    o => cx.viol(sig("cut"), format!("{}: {how} of the first {cut} bytes {} gives {o:?}", c.case, hex(&p)), &rep(c.op, c.be, &how, &p)),
                }
            }
            cx.eval(hash_bytes(key(c.i, c.be, &c.d), &[cut as u8]), true);
        }
        // bad data with plenty behind it
        if s.fallible {
            for _ in 0..6 {
                let mut v = c.d.to_vec();
                for _ in 0..1 + c.r.below(2) { if !v.is_empty() { let i = c.r.us(v.len()); v[i] = *c.r.pick(&[0u8, 1, 2, 5, 0x80, 0xC0, 0xD8, 0xDF, 0xED, 0xFF]); } }
                v.extend_from_slice(&pad);
                let p = Placed::new(&v, c.d.as_ptr() as usize);
                let want = c.op.refdec(c.be, true, &p);
                if !want.invalid() || want.max_len > 60 { continue; }
                let dflt = c.r.bool();
                let mut rs = vec![run_way(c.op, *c.r.pick(&WAYS), dflt, c.be, &p)];
                let (b, plan) = (c.r.bool(), Plan::random(&mut c.r));
                rs.push(run_stream(c.op, b, dflt, c.be, &p, plan));
                for x in rs {
                    if s.borrow && !x.borrows { continue; }
                    let how = x.how.clone();
                    match x.out {
                        Out::Err(e) => {
                            if e.is_eof() || matches!(get_error_kind(&e), ErrorKind::InputBufferIsTooSmall { .. }) { cx.viol(sig("noteof"), format!("{}: {how} of {}.. (invalid, not short) fails with {:?}, is_eof {}", c.case, hex(&v[..n]), get_error_kind(&e), e.is_eof()), &rep(c.op, c.be, &how, &v[..n + 64])); }
                            cx.count("bad-data errors", 1);
                            convert(cx, c.op, e);
                        }
                        o => cx.viol(sig("bad"), format!("{}: {how} of {}.. (invalid) gives {o:?}", c.case, hex(&v[..n])), &rep(c.op, c.be, &how, &v[..n + 64])),
                    }
                }
                cx.eval(key(c.i, c.be, &v[..n]), true);
            }
        }
        // an I/O error comes through unchanged
        if n > 0 && !s.borrow && c.r.one_in(4) {
            let at = c.r.us(n);
            let kind = if c.r.one_in(6) { io::ErrorKind::UnexpectedEof } else { *c.r.pick(&FAULTS) };
            let mut plan = Plan::random(&mut c.r);
            plan.fault = Some((at, kind));
            let seed = plan.seed;
            let b = c.r.bool();
            let x = run_stream(c.op, b, false, c.be, &c.d, plan);
            match x.out {
                Out::Err(e) => {
                    let ok = matches!(get_error_kind(&e), ErrorKind::IoError(y) if is_fault(y, kind, seed)) && e.is_eof() == (kind == io::ErrorKind::UnexpectedEof);
                    if !ok { cx.viol(sig("io"), format!("{}: injected {kind:?} comes back as {:?}, is_eof {}", c.case, get_error_kind(&e), e.is_eof()), &rep(c.op, c.be, &x.how, &c.d)); }
                    cx.count("injected I/O errors", 1);
                    cx.count(&format!("I/O errors of form {}", seed % 4), 1);
                    convert(cx, c.op, e);
                }
                o => cx.viol(sig("io"), format!("{}: injected {kind:?} at {at} gives {o:?}", c.case), &rep(c.op, c.be, &x.how, &c.d)),
            }
        }
        cx.sample(|| format!("{} {}", c.case, hex(&c.d)));
    });
    if !crate::zoo::generated() { crate::checks::misc::error_table(cx); }
}
/// What every error must be able to do.
pub fn convert(cx: &mut Cx, op: &dyn Ops, e: speedy::Error) {
    use std::error::Error as _;
    let sig = |k: &str| format!("C22|{}|convert-{k}", op.name());
    let (text, dbg) = (e.to_string(), format!("{:?}", e));
    if text.trim().is_empty() || dbg.trim().is_empty() { cx.viol(sig("message"), format!("error with an empty message: {dbg}"), &[]); }
    let eof = e.is_eof();
    let kind = if let ErrorKind::IoError(x) = get_error_kind(&e) { Some((x.kind(), x.to_string())) } else { None };
    let src = e.source().map(|s| s.to_string());
    if src.is_some() != kind.is_some() || kind.as_ref().map_or(false, |k| src.as_ref() != Some(&k.1)) { cx.viol(sig("source"), format!("source of {dbg} is {src:?}"), &[]); }
    if kind.is_some() && e.source().and_then(|s| s.downcast_ref::<io::Error>()).map(|x| x.kind()) != kind.as_ref().map(|k| k.0) { cx.viol(sig("source"), format!("source of {dbg} is not the wrapped I/O error"), &[]); }
    // a wrapped error is the very same one afterwards: its system code, and its payload at the same place
    let inside = |x: &io::Error| (x.raw_os_error(), x.get_ref().map(|p| p as *const (dyn std::error::Error + Send + Sync) as *const () as usize));
    let was = if let ErrorKind::IoError(x) = get_error_kind(&e) { Some(inside(x)) } else { None };
    let io: io::Error = e.into();
    if was.is_some() && was != Some(inside(&io)) { cx.viol(sig("io"), format!("{dbg} is a different I/O error after conversion: {io:?}"), &[]); }
    let ok = match &kind { Some((k, t)) => io.kind() == *k && io.to_string() == *t, None => io.kind() == if eof { io::ErrorKind::UnexpectedEof } else { io::ErrorKind::InvalidData } && io.to_string() == text };
    if !ok { cx.viol(sig("io"), format!("{dbg} converts to I/O error {io:?}"), &[]); }
    cx.count("errors converted", 1);
}

/// C06: hostile input never panics, aborts or hangs (crashes are seen by the driver).
pub fn c06(cx: &mut Cx) {
    each_input(cx, 900, |_| false, hostile, |cx, c| {
        let want = c.op.refdec(c.be, true, &c.d);
        if want.huge() { cx.count("skipped: zero-size elements in bulk", 1); return; }
        let with_file = c.r.one_in(8);
        let sig = format!("C06|{}|{}|panic", c.op.name(), c.op.ctx());
        let t = std::time::Instant::now();
        let (rs, _) = measured(3 << 30, || all_ways(cx, c, with_file));
        let took = t.elapsed();
        cx.count("executions", rs.len() as u64);
        let mut ok = false;
        for x in &rs {
            match &x.out { Out::Panic(m) => cx.viol(sig.clone(), format!("{}: {} of {} panics: {m}", c.case, x.how, hex(&c.d)), &rep(c.op, c.be, &x.how, &c.d)), Out::Ok(_) => ok = true, _ => {} }
        }
        if took.as_millis() > 200 { cx.count("inputs slower than 200 ms", 1); }
        note(cx, c, ok);
    });
}
/// Inputs with exaggerated lengths on top of the usual ones.
pub fn hostile(op: &dyn Ops, r: &mut Rng, be: bool) -> (Vec<u8>, &'static str) {
    if r.one_in(3) {
        let b = if cfg!(miri) { 20 } else { *r.pick(&[10i64, 40, 200, 9000]) };
        let mut d = valid(op, r, be, b);
        if d.len() >= 2 {
            for _ in 0..1 + r.below(2) {
                let w = *r.pick(&[1usize, 2, 4, 4, 4, 8]);
                if w > d.len() { continue; }
                let i = if r.one_in(3) { 0 } else { r.us((d.len() - w + 1).min(64)) };
                let v: u64 = match r.below(6) { 0 => !0, 1 => 1 << 63, 2 => (1u64 << (8 * w as u64 - 1).min(63)) - 1, 3 => r.u64() >> r.below(40), 4 => 0x4000_0000 | r.below(9), _ => d.len() as u64 + r.below(70000) };
                let mut x = v.to_le_bytes()[..w].to_vec();
                if be { x.reverse(); }
                d[i..i + w].copy_from_slice(&x);
            }
        }
        return (d, "exaggerated");
    }
    input(op, r, be)
}

/// C07: memory while reading is bounded by what the source supplied.
pub fn c07(cx: &mut Cx) {
    each_input(cx, 900, |op| { let s = op.shape(); s.zero_elems || s.regex }, hostile, |cx, c| {
        let sig = |k: &str| format!("C07|{}|{}|{k}", c.op.name(), c.op.ctx());
        let scale = c.op.shape().mem;
        for k in 0..4 {
            let dflt = c.r.bool();
            let n = c.d.len();
            let plan = Plan::random(&mut c.r);
            let way = *c.r.pick(&WAYS);
            let by_stream = k == 1 || k == 2;
            // everything this allocates must stay below: constant + multiple of the supplied bytes
            let limit = if by_stream { 512 << 10 } else { 16 << 10 } + n * scale;
            let (x, m) = measured(64 << 20, || match k {
                0 => run_way(c.op, way, dflt, c.be, &c.d),
                1 => run_stream(c.op, false, dflt, c.be, &c.d, plan),
                2 => run_stream(c.op, true, dflt, c.be, &c.d, plan),
                _ => { let w = *c.r.pick(&WAYS); run_way(c.op, w, dflt, c.be, &c.d) }
            });
            cx.count("executions", 1);
            cx.count("bytes allocated (peaks)", m.peak as u64);
            if m.peak > limit { cx.viol(sig("peak"), format!("{}: {} of {} ({n} bytes) allocates {} bytes (largest request {}), allowed {limit}", c.case, x.how, hex(&c.d), m.peak, m.biggest), &rep(c.op, c.be, &x.how, &c.d)); }
            if let Out::Panic(p) = &x.out { if p.contains("capacity") { cx.viol(sig("capacity"), format!("{}: {} of {} : {p}", c.case, x.how, hex(&c.d)), &rep(c.op, c.be, &x.how, &c.d)); } }
        }
        note(cx, c, c.label == "valid");
    });
}

#!/usr/bin/env python3
"""Writes Rust modules of random type definitions with #[derive(Readable, Writable)], each with an
independent model of its documented encoding, for the monitors in harness/.
usage: gen_types.py layouts|attributes SEED COUNT > file.rs"""
import random, sys

class T:
    """A type expression and what the generator has to know about it."""
    def __init__(s, rs, **k):
        s.rs = rs
        s.lt = s.le = s.open = s.fall = s.borrow = s.min0 = s.cont = s.aligned = s.packed = False
        s.ord = s.hash = s.clone = s.default = True
        s.copy = s.prim = s.zc = False
        s.one = False           # an element of one byte
        s.eof = True            # may be read until the end of the input
        s.fixed = False
        s.__dict__.update(k)
AL = dict(u8=1, i8=1, bool=1, u16=2, i16=2, NonZeroU16=2)
def al(t):
    """Alignment, or 16 when it does not matter to us."""
    if getattr(t, "al", None): return t.al
    if t.rs in AL: return AL[t.rs]
    if t.rs.startswith("[") and t.rs[1:].split(";")[0] in AL: return AL[t.rs[1:].split(";")[0]]
    return 16
def both(a, b, rs, **k):
    d = dict(lt=a.lt or b.lt, le=a.le or b.le, open=False, fall=a.fall or b.fall, borrow=a.borrow or b.borrow, min0=False,
             ord=a.ord and b.ord, hash=a.hash and b.hash, clone=a.clone and b.clone, default=a.default and b.default, copy=a.copy and b.copy,
             aligned=a.aligned or b.aligned, packed=a.packed or b.packed)
    d.update(k)
    return T(rs, **d)
def like(a, rs, **k): return both(a, a, rs, **k)

INTS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128"]
def prim(n): return T(n, prim=True, copy=True, zc=True, one=n in ("u8", "i8"), fixed=True, ord=n[0] != "f", hash=n[0] != "f")

class Gen:
    def __init__(s, seed, mode):
        s.r = random.Random("%s-%d" % (mode, seed)); s.mode = mode; s.defs = []; s.zoo = []; s.n = 0; s.out = []
    def pick(s, l): return s.r.choice(l)
    def one_in(s, n): return s.r.randrange(n) == 0
    def prim(s): return prim(s.pick(INTS + ["f32", "f64"]))

    # ---- type expressions
    def base(s):
        r = s.r.randrange(30)
        if r < 12: return s.prim()
        return [T("bool", copy=True, fixed=True), T("char", copy=True, fall=True, fixed=True), T("String", cont=True, fall=True), T("String", cont=True, fall=True),
                T("&'a str", lt=True, borrow=True, cont=True, fall=True, copy=True), T("Cow<'a, str>", lt=True, cont=True, fall=True), T("Box<str>", fall=True),
                T("NonZeroU16", fall=True, default=False, copy=True, fixed=True), T("Duration", fall=True, copy=True, fixed=True), T("usize", copy=True, fixed=True),
                T("&'a [u8]", lt=True, borrow=True, cont=True, copy=True), T("()", min0=True, copy=True, fixed=True), T("Ipv4Addr", default=False, copy=True, fixed=True),
                T("uuid::Uuid", copy=True, fixed=True), T("AtomicU32", ord=False, hash=False, clone=False, fixed=True), T("i64", prim=True, copy=True, zc=True, fixed=True),
                T("u8", prim=True, copy=True, zc=True, one=True, fixed=True), T("bool", copy=True, fixed=True)][r - 12]
    def elem(s, depth=0, ok=lambda t: True):
        for _ in range(200):
            t = s.expr(depth + 1)
            if not t.open and not t.min0 and ok(t): return t
        return prim("u16")
    def user(s):
        c = [t for d in s.defs for t in d]
        return s.pick(c[-12:]) if c else s.base()
    def container(s, depth=0, lengthed=False):
        k = s.r.randrange(12 if lengthed else 15)
        if k <= 3:
            t = s.elem(depth); return like(t, "Vec<%s>" % t.rs, cont=True, copy=False, default=True, eof=not t.fall)
        if k == 4: return T("String", cont=True, fall=True)
        if k == 5: return T("Cow<'a, str>", cont=True, fall=True, lt=True)
        if k == 6:
            t = s.elem(depth, lambda t: t.clone and not t.borrow); return like(t, "Cow<'a, [%s]>" % t.rs, lt=True, cont=True, copy=False, default=True, eof=not t.fall)
        if k == 7:
            t = s.elem(depth, lambda t: t.ord); w = s.one_in(3) and t.clone and not t.borrow
            return like(t, ("Cow<'a, BTreeSet<%s>>" if w else "BTreeSet<%s>") % t.rs, lt=t.lt or w, cont=True, copy=False, default=not w, eof=not t.fall)
        if k == 8:
            t = s.elem(depth, lambda t: t.ord and t.hash); w = s.one_in(3) and t.clone and not t.borrow
            return like(t, ("Cow<'a, HashSet<%s>>" if w else "HashSet<%s>") % t.rs, lt=t.lt or w, cont=True, copy=False, ord=False, hash=False, default=not w, eof=not t.fall)
        if k in (9, 10):
            a = s.elem(depth + 1, lambda t: t.ord and t.hash); b = s.elem(depth + 1); h = k == 9
            w = s.one_in(3) and a.clone and b.clone and not a.borrow and not b.borrow
            x = "%s<%s, %s>" % ("HashMap" if h else "BTreeMap", a.rs, b.rs)
            return both(a, b, "Cow<'a, %s>" % x if w else x, lt=a.lt or b.lt or w, cont=True, copy=False, ord=not h and a.ord and b.ord, hash=not h and a.hash and b.hash, default=not w, eof=not (a.fall or b.fall))
        if k == 11:
            t = s.pick([prim("u8"), prim("i8")])
            return like(t, "&'a [%s]" % t.rs, lt=True, le=not t.one, borrow=True, fall=True, cont=True, copy=True, default=True, eof=not t.min0)
        if k == 12:
            t = s.elem(depth); return like(t, "Box<[%s]>" % t.rs, copy=False, default=True)
        if k == 13:
            t = s.elem(depth); return like(t, "SmallVec<[%s; %d]>" % (t.rs, s.r.randrange(1, 5)), copy=False, default=True)
        t = s.elem(depth, lambda t: t.ord and t.hash); return like(t, "IndexSet<%s>" % t.rs, copy=False, ord=False, hash=False, default=True)
    def tail(s):
        """What may run to the end of the input; each of them in turn."""
        s.tails = getattr(s, "tails", s.r.randrange(6)) + 1
        if s.tails % 3 == 0: return s.container(0, True)
        n = s.tails // 3 * 2 + s.tails % 3
        b = [("&'a [u8]", dict(lt=True, borrow=True, copy=True)), ("&'a str", dict(lt=True, borrow=True, copy=True)), ("String", {}), ("Cow<'a, str>", dict(lt=True)), ("&'a [i8]", dict(lt=True, borrow=True, copy=True))][n % 5]
        return T(b[0], cont=True, fall=True, **b[1])
    def expr(s, depth=0):
        r = s.r.randrange(20)
        if depth >= 3 or r < 8: return s.base()
        if r < 11: return s.user()
        if r < 15: return s.container(depth)
        if r == 15:
            t = s.elem(depth); return like(t, "Option<%s>" % t.rs, default=True)
        if r == 16:
            t = s.elem(depth); n = s.pick([0, 1, 2, 3, 5]); return like(t, "[%s; %d]" % (t.rs, n), min0=n == 0, default=t.default and n > 0, fixed=t.fixed)
        if r == 17:
            a, b = s.elem(depth), s.elem(depth); return both(a, b, "(%s, %s)" % (a.rs, b.rs), fixed=a.fixed and b.fixed)
        if r == 18:
            t = s.elem(depth); return like(t, "Box<%s>" % t.rs, copy=False)
        a, b = s.elem(depth), s.elem(depth); return both(a, b, "Result<%s, %s>" % (a.rs, b.rs), default=False, min0=False)

    # ---- fields
    NAMES = ["a", "b", "c", "x", "y", "value", "error", "r#type", "length", "count", "kind", "tag", "size", "data", "reader", "writer", "context", "_unused", "item", "index", "out", "key", "slice", "buffer", "version", "n", "m"]
    def const(s):
        k = s.r.randrange(9)
        if k == 0: return '"MAGIC"', b"MAGIC"
        if k == 1: return 'b"\\x00\\xff\\x7f"', b"\x00\xff\x7f"
        if k == 2: return "'k'", b"k"
        if k == 3: return "'\u20ac'", "\u20ac".encode()
        if k == 4: return "b'z'", b"z"
        if k == 5: n = s.r.randrange(256); return "%d_u8" % n, bytes([n])
        if k == 6: n = s.r.randrange(1, 129); return "-%d_i8" % n, bytes([256 - n])
        if k == 7: b = s.one_in(2); return "true" if b else "false", bytes([b])
        return '"\u00e9\\n\\0"', "\u00e9\n\0".encode()
    def fields(s, kind, params=(), lead=None, copy_only=False):
        """A list of field dictionaries, in order."""
        n = s.pick([1, 1, 2, 2, 3, 3, 4, 5, 6]) if s.mode == "attributes" else s.pick([1, 2, 2, 3, 3, 4, 4, 5])
        names = s.r.sample(s.NAMES, n + 1)
        fs = []
        if lead:
            fs.append(dict(t=lead[0], attrs=lead[1], kind="tag", lit=lead[2], lk=lead[3], const=None, dflt=False, name=names.pop()))
        ended = False
        for i in range(n):
            last = i == n - 1
            f = dict(kind="plain", attrs=[], const=None, dflt=False, name=names.pop(), opt=False)
            srcs = [j for j, g in enumerate(fs) if g["kind"] == "plain" and g["t"].rs in ("u8", "u16", "u32", "usize")]
            k = s.r.randrange(22)
            if last and s.mode == "attributes" and not copy_only and s.one_in(4): k = 21
            if copy_only: k = s.pick([0, 0, 0, 16, 18, 20])
            if params and s.one_in(2):
                p = s.pick(params)
                forms = ["%s", "Vec<%s>", "Option<%s>", "[%s; 2]", "(%s, u8)", "Box<%s>", "Vec<Option<%s>>"] + (["BTreeSet<%s>", "BTreeMap<%s, u16>", "BTreeSet<%s>"] if p.param_ord else [])
                form = s.pick(forms)
                f["t"] = like(p, form % p.rs, cont=form in ("Vec<%s>", "BTreeSet<%s>", "BTreeMap<%s, u16>", "Vec<Option<%s>>"), default=form not in ("%s", "[%s; 2]", "(%s, u8)", "Box<%s>"), eof=False, generic=True)
                k = s.pick([0, 0, 12, 14]) if f["t"].cont else 0
                if k == 14 and not srcs: k = 12
            elif k < 9:
                f["t"] = s.expr() if not copy_only else s.pick([prim(s.pick(INTS)), T("bool", copy=True), T("[u16; 3]", copy=True)])
                if srcs == [] and s.one_in(3): f["t"] = prim(s.pick(["u8", "u16", "u32"])) if not s.one_in(6) else T("usize", copy=True)
                if f["t"].open and not last: f["t"] = s.prim()
            elif k < 13: f["t"] = s.container(0, True)
            elif k < 16: f["t"] = s.container(0, True); k = 14 if srcs else 12
            elif k < 18: f["t"] = s.pick([prim("u64")])
            elif k == 18: f["t"] = s.expr()
            elif k == 19 and last: f["t"] = s.container(0, True)
            elif k == 21 and last and s.mode == "attributes" and not copy_only: f["t"] = s.tail(); k = 19
            else: f["t"] = s.expr() if not copy_only else prim(s.pick(INTS))
            if copy_only and not f["t"].copy: f["t"] = s.prim()
            t = f["t"]
            if 9 <= k < 14 and t.cont:
                f["kind"] = "length_type"; f["lk"] = s.pick(["u7", "u8", "u16", "u32", "u64", "u64_varint"]); f["attrs"].append("length_type = " + f["lk"])
                if s.one_in(4) and not t.lt | t.__dict__.get("generic", False):
                    f["opt"] = True; f["t"] = like(t, "Option<%s>" % t.rs, inner=t, default=True)
                elif s.one_in(4) and t.rs.startswith(("Vec<", "String", "BTree", "Cow<")) and not t.__dict__.get("generic"):
                    f["opt"] = True; f["t"] = like(t, "Option<%s>" % t.rs, inner=t, default=True)
            elif k == 14 and t.cont and srcs:
                f["kind"] = "length"; s.length(f, fs, srcs, kind); f["attrs"].append("length = " + f["lex"])
            elif k in (16, 17) and t.rs == "u64": f["kind"] = "varint"; f["attrs"].append("varint")
            elif k == 18 and t.default and not t.borrow and not (copy_only and not t.copy):
                f["kind"] = "skip"; f["attrs"].append("skip")
                if s.one_in(3): f["attrs"].append(s.pick(["default_on_eof", "constant_prefix = 'x'"]))
            elif k == 19 and last and t.cont and t.eof and not t.fall | t.min0 | t.open:
                f["kind"] = "eof"; f["attrs"].append("length = ..")
            elif k == 19 and last and t.cont and t.rs in ("String", "Cow<'a, str>", "&'a str", "&'a [u8]", "&'a [i8]"):
                f["kind"] = "eof"; f["attrs"].append("length = ..")
            if f["kind"] != "skip":
                if s.one_in(7) and not f["t"].__dict__.get("generic"):
                    f["const"] = s.const(); f["attrs"].append("constant_prefix = " + f["const"][0])
                if last and s.one_in(3) and f["t"].default and not f["t"].borrow and f["kind"] != "eof" and not f["t"].open and (not f["t"].fall or f["t"].rs in ("String", "Cow<'a, str>", "char")) and not f["t"].__dict__.get("generic"):
                    f["dflt"] = True; f["attrs"].append("default_on_eof")
            s.r.shuffle(f["attrs"])
            if s.mode == "layouts" and not copy_only: pass
            fs.append(f)
            if f["t"].open and f["kind"] != "skip": break
        return fs
    def length(s, f, fs, srcs, kind):
        j = s.pick(srcs); ty = fs[j]["t"].rs; top = {"u8": 255, "u16": 65535, "u32": 1 << 31, "usize": 1 << 31}[ty]
        nm = lambda j: "t%d" % j if kind == "tuple" else fs[j]["name"]
        used = {h["src"][0] for h in fs if h["kind"] == "length"} | {x for h in fs if h["kind"] == "length" for x in h["src"]}
        if j in used:
            # the value is spoken for; use what it already says
            f["kind"] = "length"; f["src"] = [j]; f["follow"] = True
            by = [h.get("solve") for h in fs if h["kind"] == "length" and j in h["src"] and not h["follow"]]
            if by == ["N"] and "Set<" not in f["t"].rs and "Map<" not in f["t"].rs: f["lex"] = nm(j); f["mex"] = "*f%d as usize" % j
            else: f["lex"] = "%s & 3" % nm(j); f["mex"] = "(*f%d & 3) as usize" % j
            return
        k2 = [i for i in srcs if i != j and fs[i]["t"].rs == ty and i not in used]
        form = s.r.randrange(8); q = s.r.randrange(2, 6)
        f["src"] = [j]; f["follow"] = False
        if form <= 2: f["lex"] = nm(j); f["mex"] = "*f%d as usize" % j; f["solve"] = "N"; f["cap"] = top
        elif form == 3: f["lex"] = "%s / %d" % (nm(j), q); f["mex"] = "(*f%d / %d) as usize" % (j, q); f["solve"] = "(N * %d + g__.rng.us(%d).min(%d - N * %d))" % (q, q, top, q); f["cap"] = top // q
        elif form == 4: f["lex"] = "%s %% %d" % (nm(j), q + 5); f["mex"] = "(*f%d %% %d) as usize" % (j, q + 5); f["solve"] = "(N + %d * g__.rng.us(%d))" % (q + 5, (min(top, 60000) - q - 5) // (q + 5)); f["cap"] = q + 4
        elif form == 5: f["lex"] = "(%s >> 1)" % nm(j); f["mex"] = "(*f%d >> 1) as usize" % j; f["solve"] = "(N * 2 + g__.rng.us(2))"; f["cap"] = top // 2
        elif form == 6 and k2:
            k = s.pick(k2); f["src"] = [j, k]
            f["lex"] = "%s / 2 + %s / 2" % (nm(j), nm(k)); f["mex"] = "(*f%d / 2 + *f%d / 2) as usize" % (j, k); f["solve"] = "(N / 2 * 2)"; f["solve2"] = "((N - N / 2) * 2)"; f["cap"] = top // 2
        else: f["lex"] = "%s & 15" % nm(j); f["mex"] = "(*f%d & 15) as usize" % j; f["solve"] = "(N | (g__.rng.us(%d) & !15))" % min(top, 60000); f["cap"] = 15

    # ---- code for fields
    LK = {"u7": "U7", "u8": "U8", "u16": "U16", "u32": "U32", "u64": "U64", "u64_varint": "Var"}
    def bytes(s, b): return 'b"' + "".join("\\x%02x" % c for c in b) + '"'
    def enc(s, i, f):
        R = "f%d" % i; k = f["kind"]; o = ""
        if k == "skip": return "enc_skip(%s, e__);" % R
        if f["const"]: o += "if !e__.canon { e__.raw(%s) } " % s.bytes(f["const"][1])
        if k == "varint" or (k == "tag" and f["lk"] == "u64_varint"): o += "enc_varint(*%s, e__);" % R
        elif k == "length_type": o += "enc_%swith(%s, e__, LK::%s);" % ("opt_" if f["opt"] else "", R, s.LK[f["lk"]])
        elif k == "length": o += "enc_len(%s, e__, %s);" % (R, f["mex"])
        elif k == "eof": o += "%s.body(e__);" % R
        else: o += "%s.enc(e__);" % R
        return o
    def dec(s, i, f):
        t = f["t"].rs; k = f["kind"]; o = ""
        if k == "skip": return "dec_skip::<%s>(d__, e__)?;" % t
        if f["const"]: o += "d__.constant(%s)?; " % s.bytes(f["const"][1])
        if k == "varint" or (k == "tag" and f["lk"] == "u64_varint"): o += "dec_varint(d__, e__)?;"
        elif k == "length_type": o += "dec_%swith::<%s>(d__, e__, LK::%s)?;" % ("opt_" if f["opt"] else "", f["t"].inner.rs if f["opt"] else t, s.LK[f["lk"]])
        elif k == "length": o += "dec_len::<%s>(d__, e__, %s)?;" % (t, f["mex"])
        elif k == "eof": o += "<%s as Cont>::dec_eof(d__, e__)?;" % t
        elif f.get("isrc"): return o + "let f%d = &dec_%s(d__, e__)?;" % (i, t)
        else: o += "<%s as Model>::dec(d__, e__)?;" % t
        if f["dflt"]: o = "dec_or_default(d__, e__, |d__, e__| { %s Ok(()) }, |e__| <%s as Default>::default().enc(e__))?;" % (o, t)
        return o
    def shape(s, f):
        t = f["t"].rs; k = f["kind"]
        if k == "skip": return ".skipped::<%s>()" % t
        c = len(f["const"][1]) if f["const"] else 0
        if k == "varint" or (k == "tag" and f["lk"] == "u64_varint"): o = "Shape::fixed(1).var()"
        elif k == "length_type":
            it = f["t"].inner.rs if f["opt"] else t; p = {"u7": 1, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "u64_varint": 1}[f["lk"]]
            o = "Shape::fixed(%d).var().fails().flags(<%s as Cont>::body_shape())" % (1 if f["opt"] else p, it)
        elif k in ("length", "eof"): o = "<%s as Cont>::body_shape().var()" % t
        else: o = "shape_of::<%s>()" % t
        if c: o = "Shape::fixed(%d).fails().and(%s)" % (c, o)
        if k == "eof" or f["dflt"]: o = "%s.min(0).opened()" % o
        return ".and(%s)" % o
    def gen(s, fs):
        """Statements which bind v0.. to values."""
        o = []; done = set()
        for i, f in enumerate(fs):
            if f["kind"] == "length" and not f["follow"]:
                o.append("let v%d: %s = gen_with(g__, %d); let n__ = v%d.clen(); let n__ = said(g__, n__, %d); let _ = n__;" % (i, f["t"].rs, f["cap"], i, f["cap"]))
                for j, sol in zip(f["src"], (f["solve"], f.get("solve2"))):
                    o.append("let v%d = %s as %s;" % (j, sol.replace("N", "n__"), fs[j]["t"].rs)); done.add(j)
                done.add(i)
        for i, f in enumerate(fs):
            if i in done: continue
            k = f["kind"]; t = f["t"].rs
            if k == "varint": x = "g__.rng.int() as u64"
            elif k == "tag": x = f["lit"]
            elif k == "length_type":
                x = "gen_lt(g__, LK::%s)" % s.LK[f["lk"]]
                if f["opt"]: x = "if g__.rng.bool() { Some(%s) } else { None }" % x
            elif k in ("length", "eof"): x = "gen_with(g__, 1000)"
            else: x = "Model::gen(g__)"
            if k == "length" and f["follow"]: x = "{ let f%d = &v%d; let n__ = (%s).min(300); Cont::gen_n(g__, n__) }" % (f["src"][0], f["src"][0], f["mex"])
            o.append("let v%d: %s = %s;" % (i, t, x))
        return " ".join(o)
    def attr(s, f):
        a = f["attrs"]
        if not a: return ""
        if len(a) > 1 and s.one_in(2): return " ".join("#[speedy(%s)]" % x for x in a) + " "
        return "#[speedy(%s)] " % ", ".join(a)
    def mark(s, fs):
        for f in fs:
            if f["kind"] == "length":
                for j in f["src"]: fs[j]["isrc"] = True
    def decl(s, kind, fs, pub="pub "):
        if kind == "unit": return ""
        if kind == "tuple": return "(%s)" % ", ".join("%s%s%s" % (s.attr(f), pub, f["t"].rs) for f in fs)
        return " { %s }" % ", ".join("%s%s%s: %s" % (s.attr(f), pub, f["name"], f["t"].rs) for f in fs)
    def pat(s, path, kind, fs, p):
        if kind == "unit": return path
        if kind == "tuple": return "%s(%s)" % (path, ", ".join("%s%d" % (p, i) for i in range(len(fs))))
        return "%s { %s }" % (path, ", ".join("%s: %s%d" % (f["name"], p, i) for i, f in enumerate(fs)))
    def flags(s, fs):
        t = T("", copy=all(f["t"].copy for f in fs), fixed=False)
        for k in ("lt", "le", "aligned", "packed"): setattr(t, k, any(getattr(f["t"], k) for f in fs))
        for k in ("fall", "borrow", "open"): setattr(t, k, any(getattr(f["t"], k) for f in fs if f["kind"] != "skip"))
        for k in ("ord", "hash", "clone", "default"): setattr(t, k, all(getattr(f["t"], k) for f in fs))
        t.skips = any(f["kind"] == "skip" for f in fs)
        t.fall = t.fall or any(f["const"] or f["kind"] in ("length_type", "tag") for f in fs)
        t.open = t.open or any(f["dflt"] or f["kind"] == "eof" for f in fs)
        t.min0 = all(f["kind"] in ("skip", "eof") or f["dflt"] or (not f["const"] and (f["kind"] == "length" or f["t"].min0)) for f in fs)
        return t
    def derives(s, t, enum=False):
        d = ["Readable", "Writable"]
        if t.clone: d.append("Clone")
        if t.copy and t.clone: d.append("Copy")
        if t.ord and t.clone: d += ["PartialEq", "Eq", "PartialOrd", "Ord"]
        if t.hash and t.ord: d.append("Hash")
        if t.default and not enum: d.append("Default")
        if not (t.ord and t.clone): t.ord = t.hash = False
        if enum: t.default = False
        # values which differ in a skipped field alone become equal keys
        if t.skips: t.ord = t.hash = False
        return ", ".join(d)
    def heads(s, name, lt, params):
        gv = ["'a"] if lt else []
        gs = gv + [p.rs + (": Ord" if p.param_ord else "") for p in params]
        ty = name + ("<%s>" % ", ".join(gv + [p.rs for p in params]) if gv or params else "")
        hv = ("<%s>" % ", ".join(gv + ["%s: View%s" % (p.rs, " + Ord" if p.param_ord else "") for p in params])) if gv or params else ""
        hm = "<%s>" % ", ".join(["'a"] + ["%s: Model<'a>%s" % (p.rs, " + Ord" if p.param_ord else "") for p in params])
        return ("<%s>" % ", ".join(gs) if gs else ""), ty, hv, hm
    def instances(s, t, name, params):
        if not params: return [like(t, name + ("<'a>" if t.lt else ""), open=t.open, min0=t.min0, zc=t.zc, one=t.one)]
        res = []
        for _ in range(s.pick([1, 2, 2])):
            args = [s.elem(1, (lambda x: x.ord) if p.param_ord else (lambda x: True)) for p in params]
            z = t
            for a in args: z = both(z, a, "", open=t.open, min0=t.min0)
            z.zc = t.zc and all(a.zc for a in args)
            z.one = False
            z.rs = "%s<%s>" % (name, ", ".join((["'a"] if t.lt else []) + [a.rs for a in args]))
            res.append(z)
        return res
    def register(s, t, name=None):
        if t.copy and False: pass
        s.zoo.append((t.rs, t.le))
    def emit_def(s, insts, text):
        s.out.append(text); s.defs.append(insts)
        for t in insts: s.register(t)

    # ---- definitions
    def struct(s):
        name = "S%d" % s.n; s.n += 1
        kind = s.pick(["named", "named", "named", "tuple"])
        params = []
        if s.one_in(4):
            for p in (["T0"] if s.one_in(2) else ["T0", "T1"])[: 1 + s.r.randrange(2)]:
                q = T(p, default=False); q.param_ord = s.one_in(3); params.append(q)
        packed = not params and s.one_in(9)
        fs = s.fields(kind, params, copy_only=packed)
        if s.one_in(25): kind, fs, params, packed = "unit", [], [], False
        unused = [p for p in params if not any(p.rs in f["t"].rs for f in fs)]
        params = [p for p in params if p not in unused]
        s.mark(fs)
        t = s.flags(fs); d = s.derives(t)
        t.packed = t.packed or packed
        gs, ty, hv, hm = s.heads(name, t.lt, params)
        rep = "#[repr(packed)] " if packed else s.pick(["", "", "", "#[repr(C)] "])
        if packed and t.aligned: rep = ""; packed = False; t.packed = False
        if packed and any(f["t"].packed for f in fs): rep = "#[repr(packed)] "
        body = s.decl(kind, fs); tail = "" if kind == "named" else ";"
        text = "#[derive(%s)] %spub struct %s%s%s%s\n" % (d, rep, name, gs, body, tail)
        if packed:
            bind = " ".join("let f%d = &{ self.%s };" % (i, f["name"] if kind == "named" else i) for i, f in enumerate(fs))
        else:
            bind = "let %s = self;" % s.pat(name, kind, fs, "f")
        bind += " let _ = (%s);" % "".join("f%d, " % i for i in range(len(fs)) ) if fs else ""
        text += "impl%s View for %s { fn enc(&self, e__: &mut Enc) { let _ = &e__; %s %s } }\n" % (hv, ty, bind, " ".join(s.enc(i, f) for i, f in enumerate(fs)))
        text += "impl%s Model<'a> for %s {\n    fn gen(g__: &mut Gen<'a>) -> Self { let _ = &g__; %s %s }\n    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let _ = (&d__, &e__); %s Ok(()) }\n    fn shape() -> Shape { Shape::fixed(0)%s }\n}\n" % (
            hm, ty, s.gen(fs), s.pat(name, kind, fs, "v") if kind != "named" else "%s { %s }" % (name, ", ".join("%s: v%d" % (f["name"], i) for i, f in enumerate(fs))),
            " ".join(s.dec(i, f) for i, f in enumerate(fs)), "".join(s.shape(f) for f in fs))
        s.emit_def(s.instances(t, name, params), text)
    def enum(s):
        name = "E%d" % s.n; s.n += 1
        tt = s.pick(["u7", "u8", "u16", "u32", "u64", "u64_varint"]); top = {"u7": 127, "u8": 255, "u16": 65535, "u32": (1 << 32) - 1, "u64": (1 << 63) - 1, "u64_varint": (1 << 63) - 1}[tt]
        explicit = not s.one_in(3)
        if not explicit: tt = "u32"; top = (1 << 32) - 1
        peek = s.one_in(4)
        vs = []; used = set(); prev = -1; nv = s.pick([1, 2, 3, 3, 4, 6])
        unit_only = not peek and s.one_in(5); disc = unit_only and s.one_in(2)
        for i in range(nv):
            tag = prev + 1; how = ""
            if s.one_in(2) or tag in used or tag > top:
                for _ in range(50):
                    tag = s.pick([0, 1, 2, 100, 127, 128, 255, 256, 65535, 1 << 16, top, top - 1, s.r.randrange(300), s.r.randrange(top + 1)])
                    if tag <= top and tag not in used and (not disc or tag < 1 << 31): break
                else: continue
                how = "disc" if disc else "tag"
            used.add(tag); prev = tag
            vk = "unit" if unit_only else s.pick(["named", "tuple", "named", "tuple", "unit"])
            lead = None
            if peek:
                if vk == "unit": vk = "named"
                lt = {"u7": "u8", "u64_varint": "u64"}.get(tt, tt)
                lead = (prim(lt), ["varint"] if tt == "u64_varint" else [], str(tag), tt)
            fs = [] if vk == "unit" else s.fields(vk, (), lead)
            s.mark(fs)
            vs.append((("V%d" if not s.one_in(6) else "Type%d") % i, tag, how, vk, fs))
        allf = [f for v in vs for f in v[4]]
        t = s.flags(allf); t.fall = True; t.min0 = False; d = s.derives(t, True)
        gs, ty, hv, hm = s.heads(name, t.lt, [])
        at = []
        if explicit: at.append("tag_type = " + tt)
        if peek: at.append("peek_tag")
        s.r.shuffle(at)
        text = "#[derive(%s)] %spub enum %s%s {\n" % (d, "".join("#[speedy(%s)] " % a for a in at) if s.one_in(2) else ("#[speedy(%s)] " % ", ".join(at) if at else ""), name, gs)
        for vn, tag, how, vk, fs in vs:
            text += "    %s%s%s%s,\n" % ("#[speedy(tag = %s)] " % (s.pick(["%d", "0x%x"]) % tag) if how == "tag" else "", vn, s.decl(vk, fs, ""), " = %d" % tag if how == "disc" else "")
        text += "}\n"
        lk = "LK::" + s.LK[tt]
        arms = [] ; gens = []; decs = []; shapes = []
        for vn, tag, how, vk, fs in vs:
            p = name + "::" + vn
            arms.append("%s => { %s %s %s }" % (s.pat(p, vk, fs, "f"), "let _ = (%s);" % "".join("f%d, " % i for i in range(len(fs))), "" if peek else "enc_tag(e__, %s, %d);" % (lk, tag), " ".join(s.enc(i, f) for i, f in enumerate(fs))))
            gens.append("%s { %s %s }" % ("%d =>" % len(gens), s.gen(fs), s.pat(p, vk, [dict(f) for f in fs], "v")))
            decs.append("%d => { %s }" % (tag, " ".join(s.dec(i, f) for i, f in enumerate(fs))))
            shapes.append("Shape::fixed(%s)%s" % ({"u7": 1, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "u64_varint": 1}[tt] if not peek else 0, "".join(s.shape(f) for f in fs)))
        last = gens.pop(); gens.append("_ =>" + last.split("=>", 1)[1])
        sh = shapes[0]
        for x in shapes[1:]: sh = "%s.or(%s)" % (sh, x)
        text += "impl%s View for %s { fn enc(&self, e__: &mut Enc) { match self { %s } } }\n" % (hv, ty, " ".join(arms))
        text += "impl%s Model<'a> for %s {\n    fn gen(g__: &mut Gen<'a>) -> Self { match g__.rng.below(%d) { %s } }\n    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { let at__ = d__.pos; let t__ = dec_tag(d__, %s)?; %s match t__ { %s _ => return Err(DErr::Invalid(\"tag\")) } Ok(()) }\n    fn shape() -> Shape { %s.var().fails() }\n}\n" % (
            hm, ty, len(gens), " ".join(gens), lk, "d__.pos = at__;" if peek else "let _ = at__; e__.num((t__ as u64).to_le_bytes());", " ".join(decs), sh)
        s.emit_def(s.instances(t, name, []), text)

    # ---- layouts
    def layout(s):
        name = "L%d" % s.n; s.n += 1
        kind = s.pick(["named", "named", "tuple"])
        rep = s.pick(["", "", "", "", "C", "C", "packed", "packed(2)", "C, packed", "transparent", "align(8)", "C, align(16)", "align(2)"])
        # "bulk": plain data without holes or in packed structs, which is copied and swapped in bulk
        bulk = s.mode == "bulk"
        if bulk: rep = ["packed", "packed", "C", "packed", "transparent", ""][s.n % 6]
        n = 1 if rep == "transparent" else 4 if bulk and s.n <= 1 else s.pick([1, 2, 2, 3, 3, 3, 4, 4, 5, 6])
        pool = s.pick([["u8", "i8"], ["u16", "i16", "u8"], ["u32", "f32", "i32"], ["u8", "u16", "u32", "u64"], INTS + ["f32", "f64"], ["u64", "u128", "i128", "u8"], INTS])
        mine = [t for d in s.defs for t in d if t.layout and t.copy]
        fs = []
        names = s.r.sample([x for x in s.NAMES], n)
        for i in range(n):
            r = s.r.randrange(12)
            pk = "packed" in rep
            if r < 7: t = prim(s.pick(pool))
            elif r == 7: b = prim(s.pick(pool)); k = s.pick([1, 2, 3, 4]); t = like(b, "[%s; %d]" % (b.rs, k), copy=True, zc=False, fixed=True)
            elif r <= 9 and mine:
                t = s.pick(mine[-6:])
                if pk and t.aligned: t = prim(s.pick(pool))
            elif r == 10 and s.one_in(2): t = s.pick([T("bool", copy=True), T("char", copy=True, fall=True), T("NonZeroU16", fall=True, default=False, copy=True), T("(u8, u16)", copy=True), T("usize", copy=True)])
            else: t = prim(s.pick(pool))
            most = {"packed(2)": 2, "C, packed": 1}.get(rep, 16)
            if bulk: t = prim(["u8", "u32", "f64", "u16", "i128", "i8"][i]) if "packed" in rep and s.n <= 1 else prim(s.pick(pool) if "packed" in rep else "u32")
            if al(t) > most: t = prim(s.pick(["u8", "i8"] if most == 1 else ["u8", "u16", "i16", "i8"]))
            fs.append(dict(t=t, attrs=[], kind="plain", const=None, dflt=False, name=names[i], opt=False))
        if bulk: pass
        elif s.one_in(10) and n > 1:
            i = s.r.randrange(n); f = fs[i]
            if f["t"].default: f["kind"] = "skip"; f["attrs"] = ["skip"]
        elif s.one_in(12):
            f = s.pick(fs); f["const"] = s.const(); f["attrs"] = ["constant_prefix = " + f["const"][0]]
        elif s.one_in(12):
            f = s.pick(fs); 
            if rep not in ("packed(2)", "C, packed"): f["t"] = prim("u64"); f["kind"] = "varint"; f["attrs"] = ["varint"]
        t = s.flags(fs); d = s.derives(t)
        plain = all(f["kind"] == "plain" and not f["const"] for f in fs)
        t.zc = plain and rep in ("packed", "transparent") and all(f["t"].zc for f in fs)
        t.one = False
        t.packed = t.packed or "packed" in rep; t.aligned = t.aligned or "align" in rep
        if t.packed and not t.copy: raise AssertionError
        forced = ""
        if rep == "C" and plain and len({f["t"].rs for f in fs}) == 1 and fs[0]["t"].prim and s.one_in(2):
            forced = "#[speedy(unsafe_is_primitive = always)] "; t.zc = False
        text = "#[derive(%s)] %s%spub struct %s%s%s\n" % (d, "#[repr(%s)] " % rep if rep else "", forced, name, s.decl(kind, fs), "" if kind == "named" else ";")
        bind = " ".join("let f%d = &{ self.%s };" % (i, f["name"] if kind == "named" else i) for i, f in enumerate(fs))
        if not t.copy: bind = "let %s = self;" % s.pat(name, kind, fs, "f")
        text += "impl View for %s { fn enc(&self, e__: &mut Enc) { %s %s } }\n" % (name, bind, " ".join(s.enc(i, f) for i, f in enumerate(fs)))
        text += "impl<'a> Model<'a> for %s {\n    fn gen(g__: &mut Gen<'a>) -> Self { %s %s }\n    fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { %s Ok(()) }\n    fn shape() -> Shape { Shape::fixed(0)%s }\n}\n" % (
            name, s.gen(fs), s.pat(name, "tuple", fs, "v") if kind == "tuple" else "%s { %s }" % (name, ", ".join("%s: v%d" % (f["name"], i) for i, f in enumerate(fs))),
            " ".join(s.dec(i, f) for i, f in enumerate(fs)), "".join(s.shape(f) for f in fs))
        z = like(t, name, open=t.open, min0=t.min0, zc=t.zc, one=False); z.layout = True; z.al = 1 if rep in ("packed", "C, packed") else 2 if rep == "packed(2)" else 16 if "align" in rep else max(al(f["t"]) for f in fs)
        s.emit_def([z], text)
        if z.min0: return
        cs = ["Vec<%s>", "Vec<%s>", "Cow<'a, [%s]>", "Box<[%s]>", "[%s; 3]", "SmallVec<[%s; 2]>", "Option<%s>", "(%s, u8)", "HashMap<u8, %s>", "BTreeMap<u16, %s>", "(u8, Vec<%s>, u8)", "Vec<[%s; 2]>", "Cow<'a, [[%s; 2]]>"]
        if z.ord: cs += ["BTreeSet<%s>", "HashSet<%s>" if z.hash else "BTreeSet<%s>", "BTreeMap<%s, u8>", "IndexSet<%s>" if z.hash else "Vec<%s>"]
        for c in ["Vec<%s>", "[%s; 3]", "Box<[%s]>", "Cow<'a, [%s]>", "(u8, Vec<[%s; 2]>)"] if bulk else s.r.sample(cs, 4):
            if "Cow" in c and not z.clone: continue
            s.zoo.append((c % name, False))
        if z.zc: s.zoo.append(("&'a [%s]" % name, True)); s.zoo.append(("(u8, &'a [%s])" % name, rep != "packed" or not all(f["t"].prim for f in fs) or s.one_in(2)))
    def generic_layouts(s):
        name = "W%d" % s.n; s.n += 1
        rep = s.pick(["transparent", "C", "", "packed"])
        cp = ", Clone, Copy" if rep == "packed" else ", Clone"
        cb = ": Copy" if rep == "packed" else ""
        two = rep != "transparent"
        s.out.append("#[derive(Readable, Writable%s)] %spub struct %s<T0%s>(pub T0%s);\n" % (cp, "#[repr(%s)] " % rep if rep else "", name, cb, ", pub T0" if two else "")
            + "impl<T0: View%s> View for %s<T0> { fn enc(&self, e__: &mut Enc) { let f0 = &%s; f0.enc(e__); %s } }\n" % (" + Copy" if cb else " + Clone", name, "{ self.0 }" if cb else "self.0.clone()", ("let f1 = &%s; f1.enc(e__);" % ("{ self.1 }" if cb else "self.1.clone()")) if two else "")
            + "impl<'a, T0: Model<'a> + Clone%s> Model<'a> for %s<T0> { fn gen(g__: &mut Gen<'a>) -> Self { %s(Model::gen(g__)%s) } fn dec(d__: &mut Dec, e__: &mut Enc) -> DRes { T0::dec(d__, e__)?; %s Ok(()) } fn shape() -> Shape { Shape::fixed(0).and(shape_of::<T0>())%s } }\n" % (
                " + Copy" if cb else "", name, name, ", Model::gen(g__)" if two else "", "T0::dec(d__, e__)?;" if two else "", ".and(shape_of::<T0>())" if two else ""))
        for _ in range(3):
            t = s.pick(["u8", "u16", "i32", "f64", "u128", "bool", "char"] + [x.rs for d in s.defs for x in d if x.copy and not (rep == "packed" and x.aligned) and not x.min0 and not x.lt][-3:])
            for c in s.r.sample(["Vec<%s<%s>>", "Cow<'a, [%s<%s>]>", "[%s<%s>; 2]", "Box<[%s<%s>]>"], 2): s.zoo.append((c % (name, t), False))

    def module(s, count):
        for i in range(count):
            if s.mode in ("layouts", "bulk"):
                s.layout()
                if i % 6 == 5 and s.mode == "layouts": s.generic_layouts()
            else:
                (s.enum if s.one_in(3) else s.struct)()
        extra = []
        if s.mode == "attributes":
            for t in [t for d in s.defs for t in d if not t.open and not t.min0]:
                if s.one_in(3): extra.append((s.pick(["Vec<%s>", "Option<%s>", "(%s, u16)", "[%s; 2]", "Box<%s>", "SmallVec<[%s; 2]>"]) % t.rs, t.le))
        seen = set(); dyn, le = [], []
        for rs, l in s.zoo + extra:
            if rs in seen: continue
            seen.add(rs); (le if l else dyn).append(rs)
        o = "// Written by tools/gen_types.py; do not edit.\n#![allow(dead_code, unused_imports, unused_variables, unused_parens, non_camel_case_types, private_interfaces, unused_mut)]\n"
        o += "use hz::model::*;\nuse hz::model::{Cont, Model};\nuse speedy::{Readable, Writable};\nuse std::borrow::Cow;\nuse std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};\nuse std::num::NonZeroU16;\nuse std::net::Ipv4Addr;\nuse std::time::Duration;\nuse std::sync::atomic::AtomicU32;\nuse smallvec::SmallVec;\nuse indexmap_v2::IndexSet;\n\n"
        o += "\n".join(s.out) + "\n"
        o += "hz::zoo! { add_dyn, speedy::Endianness;\n%s}\n" % "".join("    Z%d = %s;\n" % (i, t) for i, t in enumerate(dyn))
        o += "hz::zoo! { add_le, hz::ops::Native;\n%s}\n" % "".join("    Y%d = %s;\n" % (i, t) for i, t in enumerate(le + [x for x in dyn if s.one_in(8)]))
        o += "hz::zoo! { add_be, speedy::BigEndian;\n%s}\n" % "".join("    X%d = %s;\n" % (i, t) for i, t in enumerate(x for x in dyn if s.one_in(8)))
        o += "pub fn all(v: &mut Vec<Box<dyn hz::ops::Ops>>) { add_dyn(v); add_le(v); add_be(v); }\n"
        return o
T.layout = False
if __name__ == "__main__":
    mode, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sys.stdout.write(Gen(seed, mode).module(count))

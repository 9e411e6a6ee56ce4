"""What each property's check runs."""
import hashlib, glob, json, os, re, shutil, subprocess, sys, threading
import check
from check import HERE, TARGET, REPO

def repo_hash():
    h = hashlib.sha256()
    for base in ("src", "speedy-derive/src"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, base))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    for f in ("Cargo.toml", "speedy-derive/Cargo.toml"):
        h.update(open(os.path.join(REPO, f), "rb").read())
    return h.hexdigest()

def fresh(target):
    """Cargo goes by modification times; copies of the tree may have any. Go by contents instead."""
    mark = os.path.join(target, "repo.hash")
    now = repo_hash()
    if os.path.exists(mark) and open(mark).read() == now:
        return
    for d in glob.glob(os.path.join(target, "**", ".fingerprint", "speedy*"), recursive=True):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    open(mark, "w").write(now)

DERIVED = ("C01", "C17", "C18")

def build_hz(run):
    fresh(TARGET)
    home = os.path.join(HERE, "harness")
    try:
        run.cargo(["build", "--offline"], home, what="building the harness")
    except check.Broken as e:
        if run.pid not in DERIVED or "could not compile `hz`" not in str(e):
            raise
        # is it the definitions of the zoo which the derive does not take any more?
        out = run.cargo(["build", "--offline", "--message-format=short"], home, what="building the harness", accept=(0, 101)).decode(errors="replace")
        bad = [l for l in out.splitlines() if re.match(r"src/zoo(_gen)?\.rs:\d+:\d+: error", l)]
        for l in bad[:3]:
            run.viol("%s|zoo|%s|compile" % (run.pid, l.split(": error")[0]), "a definition of the zoo does not compile: " + l, {"source": "harness/" + l.split(":")[0]})
        raise

def harness(work, secs=60, twork=None, tsecs=900):
    """The zoo workload of this property in 8 shards."""
    def go(run):
        build_hz(run)
        if run.thorough:
            run.hz(run.pid, twork or work * 30, tsecs)
        else:
            run.hz(run.pid, work, secs)
    return go

PROG_TOML = """[package]
name = "progs-%(id)s"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
hz = { path = "%(here)s/harness" }
speedy = { path = "%(repo)s" }
smallvec = "1"
uuid = "1"
indexmap_v2 = { package = "indexmap", version = "2" }

[profile.dev]
opt-level = 0
debug = 0
overflow-checks = true
debug-assertions = true

[profile.dev.package."*"]
opt-level = 1

[profile.dev.package.hz]
opt-level = 0
"""
PROG_TAIL = """
#[global_allocator]
static ALLOC: hz::sut::Counting = hz::sut::Counting;
fn main() { let _ = hz::zoo::OWN.set(all); hz::cli::run() }
"""

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)

def programs(mode, count, work, secs, rounds, trounds):
    """Programs of generated definitions, each run through the monitors as its own zoo."""
    def go(run):
        build_hz(run)
        home = os.path.join(TARGET, "progs", run.pid)
        put(os.path.join(home, "Cargo.toml"), PROG_TOML % dict(id=run.pid.lower(), here=HERE, repo=REPO))
        shutil.copyfile(os.path.join(HERE, "harness", "Cargo.lock"), os.path.join(home, "Cargo.lock"))
        for rnd in range(trounds if run.thorough else rounds):
            if rnd and run.left() < 300:
                run.count("rounds left out for lack of time")
                break
            seeds = [run.seed * 1000 + rnd * 8 + i for i in range(8)]
            names = ["%s_g%d" % (run.pid.lower(), i) for i in range(8)]
            for nm, sd in zip(names, seeds):
                src = subprocess.run([sys.executable, os.path.join(HERE, "tools", "gen_types.py"), mode, str(sd), str(count)], stdout=subprocess.PIPE, check=True).stdout.decode()
                put(os.path.join(home, "src", "bin", nm + ".rs"), src + PROG_TAIL)
                run.count("definitions", src.count("#[derive(Readable"))
                exe = os.path.join(TARGET, "debug", nm)
                if os.path.exists(exe):
                    os.remove(exe)
            try:
                run.cargo(["build", "--offline", "--keep-going", "--message-format=short"], home, what="building generated programs")
            except check.Broken as e:
                bad = [l for l in str(e).splitlines() if re.match(r"src/bin/\S+\.rs:\d+:\d+: error", l)]
                if not bad or "could not compile `speedy" in str(e) or "could not compile `hz`" in str(e):
                    raise
                for l in bad[:3]:
                    nm = re.match(r"src/bin/(\S+)\.rs", l).group(1)
                    keep(run, home, nm)
                    run.viol("%s|%s|compile" % (run.pid, nm), "a definition the derive should accept does not compile (gen_types.py %s %d %d): %s" % (mode, seeds[names.index(nm)], count, l), {"source": os.path.join("out", run.pid + "-" + nm + ".rs")})
            exes = [os.path.join(TARGET, "debug", nm) for nm in names if os.path.exists(os.path.join(TARGET, "debug", nm))]
            before = len(run.viols)
            run.hz(run.pid, work, secs, label="r%d-" % rnd, each=exes)
            run.count("programs", len(exes))
            for v in run.viols[before:]:
                m = re.search(r"\b(%s_g(\d))\b" % run.pid.lower(), v["sig"] + " " + str(v["replay"].get("cmd", "")))
                if m:
                    keep(run, home, m.group(1))
                    v["text"] += "  [gen_types.py %s %d %d]" % (mode, seeds[int(m.group(2))], count)
                    v["replay"]["source"] = os.path.join("out", run.pid + "-" + m.group(1) + ".rs")
            if run.unknown():
                break
    return go

def zoo_and_definitions(work, secs=60, count=10):
    """The zoo workload, then the same over freshly generated definitions."""
    first, then = harness(work, secs), programs("attributes", count, max(work // 3, 60), 40, 1, 12)
    def go(run):
        first(run)
        if not run.unknown():
            then(run)
    return go

def keep(run, home, nm):
    os.makedirs(check.OUT, exist_ok=True)
    shutil.copyfile(os.path.join(home, "src", "bin", nm + ".rs"), os.path.join(check.OUT, run.pid + "-" + nm + ".rs"))

# ---- sanitizers and Miri
ASAN = os.path.join(TARGET, "asan")
TSAN = os.path.join(TARGET, "tsan")
MIRI = os.path.join(TARGET, "miri")
TRIPLE = "x86_64-unknown-linux-gnu"
HARNESS = os.path.join(HERE, "harness")

def miri_env(flags=""):
    return {"CARGO_TARGET_DIR": MIRI, "MIRI_SYSROOT": os.path.join(TARGET, "miri-sysroot"), "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks " + flags, "CARGO_INCREMENTAL": "0"}

def build_miri(run, cwd=HARNESS, bin="hz"):
    """Checks the program for Miri; run() later only interprets."""
    fresh(MIRI)
    if not os.path.exists(os.path.join(TARGET, "miri-sysroot", "lib")):
        run.cargo(["+nightly", "miri", "setup"], cwd, env=miri_env(), what="building Miri's standard library")
    # a command which ends at once: what `cargo miri run` builds is all that is wanted
    run.cargo(["+nightly", "miri", "run", "--offline", "-q", "--bin", bin, "--", "build"], cwd, env=miri_env(), what="building for Miri", accept=(0, 2))

def build_san(run, san, target, cwd=HARNESS, args=()):
    fresh(target)
    run.cargo(["+nightly", "build", "--offline", "--target", TRIPLE] + list(args), cwd, env={"CARGO_TARGET_DIR": target, "RUSTFLAGS": "-Zsanitizer=" + san, "CARGO_INCREMENTAL": "0"}, what="building with the %s sanitizer" % san)

def both(*fs):
    """Builds at the same time."""
    errs = []
    def one(f):
        try: f()
        except Exception as e: errs.append(e)
    ts = [threading.Thread(target=one, args=(f,)) for f in fs]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs:
        raise errs[0]

def report(run, err, what, cmd, data=""):
    """The first report of a sanitizer, Miri or a violated precondition in the output, as a violation."""
    m = re.search(r"error: (Undefined Behavior: [^\n]*)", err) or re.search(r"ERROR: (AddressSanitizer: [^\n]*)", err) or re.search(r"WARNING: (ThreadSanitizer: [^\n]*)", err) or re.search(r"(unsafe precondition\(s\) violated: [^\n]*)", err)
    if not m:
        return False
    text = err[m.start():]
    places = re.findall(r"(/repo/(?:speedy-derive/)?src/\w+\.rs):(\d+)", text) or re.findall(r"(src/\S+\.rs):(\d+)", text)
    place = os.path.basename(places[0][0]) if places else "?"
    kind = re.sub(r"0x[0-9a-f]+|alloc\d+|\d+|<\d+>", "N", m.group(1))[:100]
    run.viol("%s|%s|%s" % (run.pid, kind, place), "%s at %s, %s" % (m.group(1)[:300], ":".join(places[0]) if places else "?", what), {"report": text[:6000], "cmd": cmd, "data": data[-3000:]})
    return True

def under_miri(run, prop, secs, args, label, cwd=HARNESS, bin="hz", each=None, flags="", n=8, env=None, target=None):
    """Interprets the workload in 8 processes. `each`: further arguments of each."""
    n = len(each) if each else n
    exe = [sys.executable, os.path.join(HERE, "tools", "each.py"), json.dumps(each), "cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(cwd, "Cargo.toml")] + (["--target", target] if target else []) + ["--bin", bin, "--"]
    bad = run.shards(exe, [prop, "--secs", str(secs)] + args, n, label, env=env or miri_env(flags), wall=secs * 2 + 150)
    for i, rc, err, cr, cmd in bad:
        at = re.findall(r" (\d+)", err.split("error: ")[0][-4000:]) if each and each[i][0] == "--run" else []
        kept = ""
        if each and each[i][0] == "--run" and os.path.exists(each[i][1]):
            os.makedirs(check.OUT, exist_ok=True)
            kept = os.path.join(check.OUT, "%s-cases%d" % (run.pid, i))
            shutil.copyfile(each[i][1], kept)
        if report(run, err, "under Miri (record %s of %s)" % (at[-1], kept) if at else "under Miri", cmd):
            continue
        if rc == "timeout" and not run.viols:
            run.count("Miri processes stopped by the clock")
            continue
        if re.search(r"resource exhaustion|memory allocation of \d+ bytes failed", err):
            run.count("Miri processes which ran out of memory")
            continue
        raise check.Broken("Miri process %d ended with %s\n%s" % (i, rc, err[-3000:]))

def under_asan(run, prop, work, secs, label="asan", exe=None, each=None):
    exe = exe or os.path.join(ASAN, TRIPLE, "debug", "hz")
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:handle_segv=0:handle_sigbus=0"}
    bad = run.shards(exe, [prop, "--work", str(work), "--secs", str(secs), "--hang", "60"], 8, label, env=env, wall=secs + 200, each=each)
    for i, rc, err, cr, cmd in bad:
        if report(run, err, "natively: " + cr[:300], cmd, cr):
            continue
        if rc == 77:
            c = json.loads(cr.splitlines()[-1])
            if c["kind"] in ("segfault", "bus error", "illegal instruction"):
                run.viol("%s|%s|%s" % (run.pid, re.sub(r" be=.*", "", c["case"]), c["kind"]), "%s while running %s" % (c["kind"], c["case"]), dict(c, cmd=cmd))
            else:
                run.count("ended by something which is no undefined behaviour: " + c["kind"])
            continue
        raise check.Broken("process %d under AddressSanitizer ended with %s\n%s" % (i, rc, err[-3000:]))

def c05(run):
    both(lambda: build_miri(run), lambda: (build_san(run, "address", ASAN)))
    files = [os.path.join(run.scratch, "cases%d" % i) for i in range(8)]
    hz = os.path.join(ASAN, TRIPLE, "debug", "hz")
    def emit(i):
        p = subprocess.run([hz, "C05", "--emit", files[i], "--seed", str(run.seed), "--shard", "%d/8" % i, "--work", "2000" if run.thorough else "60", "--scratch", run.scratch, "--out", files[i] + ".n"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(run.env, ASAN_OPTIONS="detect_leaks=0"))
        if p.returncode:
            raise check.Broken("making the cases for Miri: " + p.stdout.decode(errors="replace")[-2000:])
    both(*[lambda i=i: emit(i) for i in range(8)])
    under_asan(run, "C05", 4000 if run.thorough else 100, 600 if run.thorough else 20)
    under_miri(run, "C05", 1500 if run.thorough else 60, [], "miri", each=[["--run", f] for f in files])

def both_builds(work, twork, secs=60, tsecs=900):
    """Half with debug assertions and overflow checks, half without, where mistakes surface differently."""
    def go(run):
        import configs
        got = {}
        both(lambda: build_hz(run), lambda: got.update(exe=configs.build_unchecked(run)))
        w, s = (twork, tsecs) if run.thorough else (work, secs)
        both(lambda: run.hz(run.pid, w, s, n=4), lambda: run.hz(run.pid, w, s, n=4, exe=got["exe"], label="unchecked"))
    return go

def c21(run):
    """The same workload natively, under ThreadSanitizer and (smaller, with weak memory and many schedules) under Miri."""
    both(lambda: build_miri(run), lambda: build_san(run, "thread", TSAN, args=["-Zbuild-std"]), lambda: build_hz(run))
    run.hz("C21", 400 if run.thorough else 8, 400 if run.thorough else 12, label="native-", n=4)
    exe = os.path.join(TSAN, TRIPLE, "debug", "hz")
    bad = run.shards(exe, ["C21", "--work", "200" if run.thorough else "4", "--secs", str(800 if run.thorough else 30), "--hang", "120"], 4, "tsan", env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}, wall=1500 if run.thorough else 200)
    for i, rc, err, cr, cmd in bad:
        if report(run, err, "in process %d" % i, cmd, cr):
            continue
        if rc == 77:
            c = json.loads(cr.splitlines()[-1])
            run.viol("C21|%s|%s" % (re.sub(r" be=.*", "", c["case"]), c["kind"]), "%s while running %s" % (c["kind"], c["case"]), dict(c, cmd=cmd))
            continue
        raise check.Broken("process %d under ThreadSanitizer ended with %s\n%s" % (i, rc, err[-3000:]))
    secs = 60 if run.thorough else 25
    for rnd in range(20 if run.thorough else 1):
        each = [["-Zmiri-seed=%d" % (run.seed * 1000 + rnd * 8 + i), "-Zmiri-preemption-rate=%s" % [0.01, 0.03, 0.1, 0.3][i % 4]] for i in range(8)]
        under_miri(run, "C21", secs, ["--work", "1", "--hang", "120"], "miri%d-" % rnd, each=each)
        if run.viols or run.left() < 200:
            break

COMMON = ["the reference model of the wire format in harness/src/{model,impls,zoo}.rs (written from README.md and the documented layout) is right",
          "x86-64 Linux, little-endian host"]
INPUTS = " Inputs are made per type of a zoo of about 330 (type, context) pairs: encodings of random edge-biased values by the reference encoder, mutations of them (bit flips, splices, overwritten lengths, truncation, extension), small and random byte strings, at random buffer alignments and in both byte orders; non-trivial means a non-empty input, counted by distinct (type, byte order, bytes)."
VALUES = " Values are drawn per type of a zoo of about 330 (type, context) pairs by an edge-biased generator (lengths around 0, 1, 2^k, block sizes; extreme numbers, NaNs, odd characters), in both byte orders; distinct by (type, byte order, encoding), non-trivial when the encoding is not empty."

PLANS = {
    "C01": dict(run=zoo_and_definitions(100 * 4), level="exploration", rule="Write each value through every writing entry point and read it back through every reading one (borrowing, copying, streams with random chunking and interrupts, files); the canonical form must come back." + VALUES, assumptions=COMMON),
    "C02": dict(run=zoo_and_definitions(140 * 4), level="exploration", rule="Bytes produced by every writing entry point must be the reference encoder's, plus a table of documented encodings." + VALUES, assumptions=COMMON),
    "C03": dict(run=zoo_and_definitions(140 * 4), level="exploration", rule="bytes_needed() must equal the bytes written; buffers of every size around it are filled exactly or refused, guard bytes around them stay untouched." + VALUES, assumptions=COMMON),
    "C04": dict(run=zoo_and_definitions(100 * 4), level="exploration", rule="One input is read in every way (5 buffer entry points, default context, buffered and unbuffered streams with several chunkings, file); verdict, value and reported length must agree." + INPUTS, assumptions=COMMON + ["types which can only be read by borrowing are compared among borrowing entry points only"]),
    "C05": dict(run=c05, level="exploration", rule="Miri interprets reads and writes of the zoo (library and derived types; every entry point but files, at random alignments, mostly accepted inputs and a quarter rejected ones), reader programs and containers whose elements fail or panic; streams look at every byte they are asked to fill. AddressSanitizer, with exactly sized buffers, watches many more executions natively, files and mmap included, with std's precondition checks on. Decoded values are checked to be ones their types allow. Any report is a violation. Distinct by (type, byte order, bytes) natively and by record under Miri.", assumptions=COMMON + ["unsafe_is_primitive types meet their contract", "Miri's and AddressSanitizer's notion of undefined behaviour", "files changed while they are mapped are out of scope"]),
    "C06": dict(run=both_builds(70 * 3, 70 * 120), level="exploration", rule="Read hostile inputs in every way; any panic, abort, signal or 30 s without progress is a violation. A third of the inputs carry exaggerated lengths. Everything is run by a build with debug assertions and overflow checks and by one without either." + INPUTS, assumptions=COMMON + ["sequences of zero-size elements with huge lengths and recursion depth are out of scope"]),
    "C07": dict(run=zoo_and_definitions(120 * 4), level="exploration", rule="A counting allocator measures the peak of live bytes of each read: at most 16 KiB (buffers) or 512 KiB (streams) plus a type-dependent multiple of the supplied bytes; requests beyond 64 MiB are refused. Inputs as for C06." + INPUTS, assumptions=COMMON + ["types with zero-size elements and regex are left out"]),
    "C08": dict(run=zoo_and_definitions(90 * 4), level="exploration", rule="The reference decoder decides for each input whether it is an encoding and of what; the read (a random entry point) must agree." + INPUTS, assumptions=COMMON),
    "C09": dict(run=zoo_and_definitions(90 * 4), level="exploration", rule="Accepted messages are read again alone and with five different tails through buffers and streams: same value, same consumed length, an unbuffered stream is left exactly behind the message; concatenations of messages of mixed types are read one by one from one stream and from buffer tails; types which run to the end of their input consume all of it." + INPUTS, assumptions=COMMON),
    "C11": dict(run=zoo_and_definitions(140 * 4), level="fault_enumeration", rule="Every proper prefix of an encoding (all cuts up to 40 bytes, else both ends, block boundaries and a sample) is read from buffers, streams and files; it must be rejected, or be what the reference decoder says for open-ended types. Distinct by (type, byte order, encoding, cut)." + VALUES, assumptions=COMMON),
    "C14": dict(run=zoo_and_definitions(100 * 4), level="exploration", rule="minimum_bytes_needed() is compared with the model's exact minimum and with every valid encoding; whatever a buffer read rejects as shorter than the minimum, a stream read of the same bytes must reject." + INPUTS, assumptions=COMMON),
    "C15": dict(run=zoo_and_definitions(90 * 4), level="exploration", rule="Addresses and lengths of all borrowed and owned parts of each decoded value are compared with the input range and with the places where the reference decoder says they are encoded; allocation counters for promised zero-copy reads." + INPUTS, assumptions=COMMON),
    "C22": dict(run=zoo_and_definitions(90 * 4), level="fault_enumeration", rule="Truncated, corrupted and faulted reads and failing writes: is_eof exactly when the data ended early, conversions to io::Error, Display, source, for every error produced." + INPUTS, assumptions=COMMON),
    "C10": dict(run=harness(75, 80), level="fault_enumeration", rule="Streams and sinks fail (every error kind, at every byte position up to 40 and a sample beyond, interrupted or refused calls in between, faults which last and faults which pass) while values of the zoo are read and written; also /dev/full, files limited by RLIMIT_FSIZE and unix sockets. A fault met before completion must come back as the same error, nothing may be consumed or delivered beyond it, Interrupted is never an error, and reader scripts on faulty streams must agree with the cursor model. Distinct by (type, byte order, encoding, fault)." + VALUES, assumptions=COMMON + ["a sink which takes zero bytes must yield WriteZero"]),
    "C12": dict(run=harness(1800, 80), level="exploration", rule="Random programs of reader operations (all public Reader methods: fixed-width and varint reads, peeks, skips, borrowed reads, vectors, collections, strings, until-EOF, context changes) run inside one Readable against every reader (borrowing and copying buffers, buffered and unbuffered streams with adversarial chunking, files, a user-written Reader) and against a cursor model of the same bytes; each result, and the amount consumed, is compared. Weighted to peeks and peek_tag enums. Distinct by program and bytes; non-trivial when a peek is followed by another operation.", assumptions=COMMON),
    "C13": dict(run=harness(250, 80), level="exploration", rule="Every length class and boundary of the variable-length integer, all 1- and 2-byte and a sample of longer encodings, random 64-bit values, overlong and truncated forms, through VarInt64, the derive attributes and the private length helpers on buffers, streams and peeks, against an independent decoder. Distinct by (bytes, form).", assumptions=COMMON),
    "C26": dict(run=both_builds(200, 6000, 80), level="exploration", rule="Random programs of all Writer operations (fixed-width numbers, blocks, values, slices, collections, varints, can_write_at_least, changes of the context, failures) run inside one Writable against vectors, buffers, streams with adversarial chunking, files, a user-written Writer with only the required methods and the sizing pass, and against a byte-at-a-time model; every zoo type is written to such a writer (with and without room) and read by such a Reader, judged by the reference encoder and decoder; every byte-order helper of Endianness is compared with to_be/to_le bytes. Distinct by program, value or input." + INPUTS, assumptions=COMMON),
    "C19": dict(run=harness(900, 80), level="exploration", rule="The reader programs of C12 weighted to mixed block and element operations around the 8 KiB buffer of buffered streams: bytes handed over, bytes taken from the stream and the order of operations against the cursor model for every chunking. Distinct by program and bytes.", assumptions=COMMON),
    "C17": dict(run=programs("layouts", 20, 6, 60, 1, 20), level="exploration", rule="Random struct definitions of every representation (default, C, packed, packed(N), transparent, align(N), nested and generic, with arrays, odd-sized and unordered fields, forced primitives, and fields with attributes which forbid bulk copies) are compiled with the derive macros; values and collections of them go through the monitors of C01, C02, C03, C04, C08 and C15, which know nothing of layouts. Distinct by (type, byte order, bytes).", assumptions=COMMON + ["unsafe_is_primitive = always is only put on types for which it is true"]),
    "C18": dict(run=programs("attributes", 20, 10, 60, 1, 20), level="exploration", rule="Random structs and enums with random combinations of the documented attributes (length, length_type, varint, constant_prefix, skip, default_on_eof, tag, tag_type, peek_tag), generic and borrowing fields and awkward names are compiled with the derive macros; values and hostile inputs go through the monitors of C01-C04, C06, C08, C09, C11, C14, C15 and C22 against a model generated from the same description. Distinct by (type, byte order, bytes).", assumptions=COMMON + ["combinations the documentation rules out are not generated"]),
    "C21": dict(run=c21, level="exploration", rule="Histories of atomics of every width, alone and inside of tuples, arrays, vectors, structs (default, C, transparent), enums and maps, which threads change while others serialize them in six ways: with one writer each value written out must be one held between the call's start and end, and never older than the previous; with several writers the chain of swapped unique values gives the modification order, which the values written out must follow within their times; independent writes seen in opposite order and data published through an atomic are litmus tests of the loads' ordering. Values of 34 types are serialized by several threads at once, and the whole zoo is read and written by all threads from shared buffers, against the reference encoder and decoder. Run natively, under ThreadSanitizer (std included) and under Miri with many seeds, preemption rates and weak memory; any race report is a violation. Distinct histories are counted by the sequence of (steps since the last value, overlap, method).", assumptions=COMMON + ["ThreadSanitizer's and Miri's notion of a data race", "x86-64 has no weaker memory model to observe natively; Miri's emulation stands in"]),
    "C23": dict(run=lambda run: __import__("configs").c23(run), level="exploration", rule="One program that reads and writes about 250 types (of which each build has those its features allow) through every entry point there is, on the same inputs, is built with 11 sets of features (none to all; thorough: 18) and with and without debug assertions, overflow checks and optimisation; each line it prints (value, error kind, length, bytes, bytes_needed) must be the same in all. Records of the whole zoo of about 400 types (reads by every entry point, writes, reader programs) are replayed by a build without debug assertions and overflow checks, and smaller ones under Miri as a big-endian 64-bit machine (s390x) and as a 32-bit one (i686), and compared with what happens here. Distinct by (type, input, operation) and by record." , assumptions=["the documented differences of a 32-bit machine: numbers and lengths which do not fit usize are refused", "Miri stands in for machines of the other byte order and pointer width", "feature sets which do not compile by themselves (regex and indexmap without std, smallvec without alloc) are left out"]),
    "C20": dict(run=harness(900, 80), level="exploration", rule="Containers and derived types of spies: elements which log the context they see, change it, or fail with a custom error. The order and the contexts of all visits, the state of the caller's context afterwards and the error that comes out are compared with the sequential model for readers and writers, including when end of input is reported by a custom error. Distinct by (type, bytes, script).", assumptions=COMMON),
    "C16": dict(run=harness(900, 80), level="fault_enumeration", rule="Elements, contexts and streams that register their construction and destruction, in every container and derived type; every call into user code (element reads and writes at their start and end, Default, Clone, comparisons, hashing, endianness(), the stream's read and write) panics, fails or reports the end of input in turn, and inputs and sinks are cut at every byte, through every entry point. Afterwards each registered value must have been dropped exactly once, the counting allocator must balance, and /proc/self/fd and maps must not name the file. The balance is also taken over hostile and faulted reads of the whole zoo. Distinct by (type, entry point, event or cut, bytes).", assumptions=["x86-64 Linux", "std's collections are allowed to leak when an element's comparison panics"]),
    "C24": dict(run=harness(700, 80), level="exploration", rule="Values are written over files of many previous contents and lengths, through symbolic and hard links, and the file compared with the encoding; files of valid and hostile contents and of sizes around pages and buffers are read and compared with the copying buffer read, with the file's bytes and metadata compared before and after, and the file truncated, overwritten or removed before the value is looked at; named pipes and kernel files, whose size says nothing, are read too; unusable paths must give I/O errors; descriptors are counted. Distinct by (type, previous content, bytes)." + VALUES, assumptions=COMMON + ["runs as root, so files unreadable by their mode cannot be made"]),
}

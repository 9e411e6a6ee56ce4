"""C23: the same workload under different builds, features, byte orders and pointer widths."""
import os, re, shutil, subprocess, sys, threading
import check, plans
from check import HERE, TARGET
from plans import both, build_hz, fresh, under_miri, HARNESS

CONFIGS = os.path.join(HERE, "configs")
EVERYTHING = "std,derive,chrono,glam,smallvec,regex,uuid,indexmap_v1,indexmap_v2"
# name, features, profile
SETS = [("none", "", "dev"), ("derive", "derive", "dev"), ("alloc", "alloc", "dev"), ("alloc-derive", "alloc,derive", "dev"), ("std", "std", "dev"), ("std-derive", "std,derive", "dev"),
        ("everything", EVERYTHING + ",external_doc", "dev"), ("extras-bare", "chrono,glam,uuid", "dev"), ("extras-alloc", "alloc,smallvec,chrono,uuid", "dev"), ("index", "std,indexmap", "dev"), ("optimised", EVERYTHING, "release")]
MORE = [("optimised-none", "", "release"), ("optimised-alloc-derive", "alloc,derive", "release"), ("checked", EVERYTHING, "checked"), ("small", EVERYTHING, "small"), ("regex", "std,regex", "dev"), ("glam-std", "std,glam", "dev"), ("smallvec-std", "std,smallvec", "dev")]

def build(run, name, feats, profile):
    """Each in its own place, so that they are built side by side; the external crates are few."""
    t = os.path.join(TARGET, "configs-" + name)
    fresh(t)
    args = ["build", "--offline", "--profile", profile, "--no-default-features"] + (["--features", feats] if feats else [])
    run.cargo(args, CONFIGS, env={"CARGO_TARGET_DIR": t, "CARGO_INCREMENTAL": "0"}, what="building with features [%s], profile %s" % (feats, profile))
    return os.path.join(t, "debug" if profile == "dev" else profile, "configs")

def build_all(run, sets):
    """Long ones first, a few at a time."""
    sets = sorted(sets, key=lambda s: (s[2] == "dev", -len(s[1])))
    todo, exes, errs, lock = list(sets), {}, [], threading.Lock()
    def work():
        while True:
            with lock:
                if not todo or errs: return
                s = todo.pop(0)
            try: exes[s[0]] = build(run, *s)
            except Exception as e: errs.append(e)
    both(*[work] * 5)
    if errs: raise errs[0]
    return exes

def compare_features(run, exes, seed, cases):
    """Runs every build on the same inputs and compares what they print, line by line."""
    procs = []
    for name, exe in sorted(exes.items()):
        d = os.path.join(run.scratch, "cf-" + name)
        os.makedirs(d, exist_ok=True)
        procs.append((name, exe, d, subprocess.Popen([exe, os.path.join(d, "log"), str(seed), str(cases), d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=run.env)))
    ref, groups = {}, {}
    for name, exe, d, p in procs:
        try: out, _ = p.communicate(timeout=run.left())
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate()
            run.viol("C23|hang|" + name, "the build with [%s] does not come to an end, seed %d" % (name, seed), {"cmd": "configs LOG %d %d DIR" % (seed, cases)})
            continue
        last = ""
        n = same = 0
        for l in open(os.path.join(d, "log"), errors="replace"):
            part = l.rstrip("\n").split("\t")
            if len(part) != 3: continue
            g, k, r = part
            last = k
            n += 1
            groups.setdefault(name, set()).add(g)
            key = (g, k)
            cmd = "%s /dev/stdout %d %d /tmp '%s' %s" % (exe, seed, cases, k.rpartition("#")[0], k.rpartition("#")[2].split()[0])
            if r.startswith("PANIC"):
                run.viol("C23|%s|%s|panics" % (k.split("#")[0], name), "with [%s], %s: %s" % (name, k, r), {"cmd": cmd})
            if key in ref:
                if ref[key][0] != r:
                    run.viol("C23|%s" % k.split("#")[0], "%s: with [%s] %s, with [%s] %s" % (k, ref[key][1], ref[key][0][:400], name, r[:400]), {"cmd": cmd, "other": ref[key][2]})
                else: same += 1
            else: ref[key] = (r, name, cmd)
        run.evals += n
        run.count("observations compared between feature sets and profiles", same)
        run.counters["features [%s]" % name] = "%d observations of %s" % (run.counters_cf.get(name, 0) + n, ", ".join(sorted(groups.get(name, ()))))
        run.counters_cf[name] = run.counters_cf.get(name, 0) + n
        if p.returncode:
            run.viol("C23|%s|%s|ends" % (last.split("#")[0], name), "the build with [%s] ends with %s after %s, seed %d: %s" % (name, p.returncode, last, seed, out.decode(errors="replace")[-600:]), {"cmd": "configs LOG %d %d DIR" % (seed, cases)})
        shutil.rmtree(d, ignore_errors=True)
    run.distinct += len(ref)
    if len(run.samples) < 6: run.samples += [" ".join(k) + ": " + v[0][:120] for k, v in list(ref.items())[5000:60000:18000]]

def parse(path):
    """Log lines of the harness: number, judgement and, natively, a description."""
    d = {}
    if os.path.exists(path):
        for l in open(path, errors="replace"):
            if not l.endswith("\n"): break
            k, _, r = l[:-1].partition(" ")
            r, _, desc = r.partition("\t")
            d[int(k)] = (r, desc)
    return d

def compare_logs(run, a, b, what, cases, narrow=False, swapped=False):
    la, lb = parse(a), parse(b)
    n = 0
    for k, (rb, db) in lb.items():
        if k not in la: continue
        ra, da = la[k]
        if rb.startswith("N") or ra.startswith("N"): continue
        if ra.startswith("P") and rb.startswith("P"):
            # reader programs may stop where the clock told them to
            if ra.split()[1:3] != rb.split()[1:3]: continue
        elif narrow and ra.startswith("W") and (rb.startswith("W Err") or rb.startswith("W not read")):
            run.count("numbers and sizes too wide for a 32-bit machine, refused there")
            continue
        elif narrow and ("Err(MisalignedInput)" in ra or ra.endswith("not read")):
            # 64-bit numbers need less alignment there
            run.count("reads misaligned on a 64-bit machine only")
            continue
        elif swapped and re.search(r"&'a \[(?![ui]8\b)[^ ]* \[dyn\]|&'a \[(?![ui]8\b).*\) \[dyn\]", da) and (("EndiannessMismatch" in ra) != ("EndiannessMismatch" in rb) or rb == "V not read"):
            run.count("borrowings which need the byte order of the machine")
            continue
        n += 1
        if ra != rb:
            typ = (da or db).split(" be=")[0]
            kept = os.path.join(check.OUT, "C23-" + os.path.basename(cases))
            os.makedirs(check.OUT, exist_ok=True)
            shutil.copyfile(cases, kept)
            run.viol("C23|%s|%s" % (what, typ or ra[0]), "record %d, %s: here %s, %s %s %s" % (k, da[:700], ra[:300], what, rb[:300], db[:400]), {"cases": kept, "record": k})
    run.count("records compared with " + what, n)

def miri_target(triple):
    t = os.path.join(TARGET, "miri-" + triple.split("-")[0])
    return t, {"CARGO_TARGET_DIR": t, "MIRI_SYSROOT": os.path.join(t, "sysroot"), "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks", "CARGO_INCREMENTAL": "0", "RUSTFLAGS": "-Awarnings"}

def build_miri_for(run, triple):
    t, env = miri_target(triple)
    fresh(t)
    if not os.path.exists(os.path.join(t, "sysroot", "lib")):
        run.cargo(["+nightly", "miri", "setup", "--target", triple], HARNESS, env=env, what="building Miri's standard library for " + triple)
    run.cargo(["+nightly", "miri", "run", "--offline", "-q", "--target", triple, "--bin", "hz", "--", "build"], HARNESS, env=env, what="building for Miri and " + triple, accept=(0, 2))

def build_unchecked(run, profile="unchecked"):
    t = os.path.join(TARGET, profile)
    fresh(t)
    run.cargo(["build", "--offline", "--profile", profile], HARNESS, env={"CARGO_TARGET_DIR": t}, what="building the harness, profile " + profile)
    return os.path.join(t, profile, "hz")

TARGETS = ["s390x-unknown-linux-gnu", "i686-unknown-linux-gnu"]

def c23(run):
    run.counters_cf = {}
    got = {}
    both(lambda: build_hz(run), lambda: got.update(unchecked=build_unchecked(run)), *([lambda: got.update(fast=build_unchecked(run, "fast"))] if run.thorough else []),
         *[lambda t=t: build_miri_for(run, t) for t in TARGETS], lambda: got.update(exes=build_all(run, SETS + (MORE if run.thorough else []))))
    hz = os.path.join(TARGET, "debug", "hz")
    for rnd in range(40 if run.thorough else 1):
        compare_features(run, got["exes"], run.seed * 1000 + rnd, 400 if run.thorough else 100)
        if run.viols or run.left() < 2400: break
    if run.viols: return
    # the whole zoo: large records in builds without checks, small ones on other machines
    def emit(i, large, path, work):
        p = subprocess.run([hz, "C23", "--emit", path, "--seed", str(run.seed), "--shard", "%d/8" % i, "--work", str(work), "--scratch", run.scratch, "--out", path + ".n"] + (["--large"] if large else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=run.env)
        if p.returncode: raise check.Broken("making the records: " + p.stdout.decode(errors="replace")[-2000:])
    f = lambda n, i: os.path.join(run.scratch, "%s%d" % (n, i))
    both(*[lambda i=i: emit(i, True, f("large", i), 300 if run.thorough else 40) for i in range(8)])
    for label, exe in [("here", hz), ("a build without checks", got["unchecked"])] + ([("an optimised build without checks", got["fast"])] if run.thorough else []):
        lab = label.split()[-3] if label != "here" else "here"
        each = [[exe, "C23", "--run", f("large", i), "--log", f("log-" + lab, i), "--secs", "200"] for i in range(8)]
        bad = run.shards(exe, [], 8, "run-" + lab, each=each, wall=400)
        ended(run, bad, label)
        if lab != "here":
            for i in range(8): compare_logs(run, f("log-here", i), f("log-" + lab, i), label, f("large", i))
    if run.viols: return
    both(*[lambda i=i: emit(i, False, f("small", i), 400 if run.thorough else 30) for i in range(8)])
    bad = run.shards(hz, [], 8, "run-small", each=[[hz, "C23", "--run", f("small", i), "--log", f("log-small", i), "--secs", "200"] for i in range(8)], wall=400)
    ended(run, bad, "here")
    secs = 900 if run.thorough else 45
    def away(t, files):
        _, env = miri_target(t)
        short = t.split("-")[0]
        under_miri(run, "C23", secs, [], "miri-" + short, each=[["--run", f("small", i), "--log", f("log-" + short, i)] for i in files], env=env, target=t)
        for i in files: compare_logs(run, f("log-small", i), f("log-" + short, i), "Miri as " + short, f("small", i), narrow=short == "i686", swapped=short == "s390x")
    both(lambda: away(TARGETS[0], range(0, 4)), lambda: away(TARGETS[1], range(4, 8)))

def ended(run, bad, label):
    import json
    for i, rc, err, cr, cmd in bad:
        if rc == 77:
            c = json.loads(cr.splitlines()[-1])
            run.viol("C23|%s|%s" % (re.sub(r" be=.*", "", c["case"]), c["kind"]), "%s (%s) while running %s" % (c["kind"], label, c["case"]), dict(c, cmd=cmd))
            continue
        raise check.Broken("process %d (%s) ended with %s\n%s" % (i, label, rc, err[-3000:]))

#!/usr/bin/env python3
"""Runs the check of one property: builds the monitors against /repo's working tree, runs the
workloads in parallel shards, gathers what the monitors saw, writes evidence/<id>.json.

usage: check.py ID            (VERIF_SEED, VERIF_TIER from the environment)
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
OUT = os.path.join(HERE, "out")
sys.path.insert(0, os.path.join(HERE, "tools"))

class Broken(Exception):
    pass

class Run:
    def __init__(self, pid):
        self.pid = pid
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.scratch = tempfile.mkdtemp(prefix="hz-%s-" % pid)
        self.evals = self.distinct = 0
        self.samples, self.counters, self.viols, self.notes = [], {}, [], []
        self.env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE"):
            self.env.pop(k, None)
        self.deadline = self.t0 + (3000 if self.thorough else 780)

    def left(self):
        return max(5, self.deadline - time.time())

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def viol(self, sig, text, replay=None):
        if all(v["sig"] != sig for v in self.viols):
            self.viols.append({"sig": sig, "text": text, "replay": replay or {}})

    # ---- building
    def cargo(self, args, cwd, env=None, what="build", timeout=700, accept=(0,)):
        t = time.time()
        e = dict(self.env, **(env or {}))
        try:
            p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=min(timeout, self.left()))
        except subprocess.TimeoutExpired:
            raise Broken("%s: cargo %s timed out" % (what, " ".join(args)))
        self.counters["seconds spent building"] = round(self.counters.get("seconds spent building", 0) + time.time() - t, 1)
        if p.returncode not in accept:
            raise Broken("%s failed:\n%s" % (what, p.stdout.decode(errors="replace")[-6000:]))
        return p.stdout

    def merge(self, o):
        with self.lock:
            self.merged(o)

    def merged(self, o):
        self.evals += o["evals"]
        self.distinct += o["distinct"]
        self.samples += o.get("samples", [])[:3]
        for k, v in o.get("counters", {}).items():
            if k != "violations":
                self.count(k, v)
        if o.get("capped"):
            self.count("shards stopped by the clock", 1)
        for v in o.get("violations", []):
            self.viol(v["sig"], v["text"], v["replay"])

    def shards(self, exe, args, n, label="", env=None, wall=None, extra=None, mem=None, each=None):
        """Runs n processes of a harness which speaks our protocol and merges their reports."""
        procs = []
        n = len(each) if each else n
        wall = min(wall or self.left(), self.left())
        def lim():
            os.setpgid(0, 0)
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        for i in range(n):
            d = os.path.join(self.scratch, "%s%d" % (label, i))
            os.makedirs(d, exist_ok=True)
            out, crash = os.path.join(d, "out.json"), os.path.join(d, "crash")
            mine = each[i] if each else exe
            cmd = (mine if isinstance(mine, list) else [mine]) + args + ["--shard", "0/1" if each else "%d/%d" % (i, n), "--out", out, "--scratch", d, "--crash", crash, "--seed", str(self.seed), "--tier", self.tier]
            err = open(os.path.join(d, "err"), "wb")
            procs.append((i, d, out, crash, cmd, subprocess.Popen(cmd, cwd=d, env=dict(self.env, **(env or {})), stdout=err, stderr=subprocess.STDOUT, preexec_fn=lim)))
        end = time.time() + wall
        done = []
        for i, d, out, crash, cmd, p in procs:
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                try: os.killpg(p.pid, 9)
                except OSError: p.kill()
                p.wait()
                rc = "timeout"
            err = open(os.path.join(d, "err"), "rb").read().decode(errors="replace")
            cr = ""
            if os.path.exists(crash):
                cr = open(crash, errors="replace").read().strip()
            if rc == 0 and os.path.exists(out):
                self.merge(json.load(open(out)))
                continue
            done.append((i, rc, err, cr, " ".join(cmd)))
        return done

    def hz(self, prop, work, secs, extra=(), n=8, exe=None, label="", env=None, hang=30, each=None):
        """The ordinary harness; anything but a clean end is a crash of the code under test or a broken check."""
        exe = exe or os.path.join(TARGET, "debug", "hz")
        bad = self.shards(exe, [prop, "--work", str(work), "--secs", str(secs), "--hang", str(hang)] + list(extra), n, label, env=env, wall=secs + 4 * hang + 60, mem=None, each=each)
        for i, rc, err, cr, cmd in bad:
            if rc == 77:
                try:
                    c = json.loads(cr.splitlines()[-1])
                except Exception:
                    c = {"kind": "crash", "case": cr[:200], "data": ""}
                tname = re.sub(r" be=.*", "", c.get("case", ""))
                self.viol("%s|%s|%s" % (self.pid, tname, c["kind"]), "%s while running %s: %s" % (c["kind"], c["case"], err[-400:]), dict(c, cmd=cmd))
            else:
                raise Broken("shard %d of %s ended with %s\n%s\n%s" % (i, prop, rc, err[-3000:], cr))

    # ---- verdict
    def known(self):
        """Signatures of the recorded findings of this property."""
        known = {}
        kf = os.path.join(HERE, "known_findings.txt")
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r"known: property=(\S+) sig=(\S+)\s*(.*)", l)
                if m and m.group(1) == self.pid:
                    known[m.group(2)] = m.group(3)
        return known
    def unknown(self):
        known = self.known()
        return [v for v in self.viols if v["sig"].replace(" ", "_") not in known]
    def finish(self, rule, level, assumptions):
        known = self.known()
        new = []
        for v in self.viols:
            key = v["sig"].replace(" ", "_")
            if key in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[key]))
            else:
                new.append(v)
        os.makedirs(OUT, exist_ok=True)
        for k, v in enumerate(new[:10]):
            path = os.path.join(OUT, "%s-%d.json" % (self.pid, k))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, **v}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  " + v["text"][:1500])
        cov = {"evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": rule, "samples": self.samples[:12] or ["none"], "observed": self.counters}
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not new and self.evals == 0:
            raise Broken("the monitors saw nothing")
        print("%s %s: %d evaluations, %d distinct, %d violations, %.1f s" % (self.pid, self.tier, self.evals, self.distinct, len(new), time.time() - self.t0))
        return 1 if new else 0

def build_hz(run):
    run.cargo(["build", "--offline"], os.path.join(HERE, "harness"), what="building the harness against %s" % REPO)

def main():
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    import plans
    pid = sys.argv[1]
    run = Run(pid)
    try:
        plan = plans.PLANS[pid]
        plan["run"](run)
        return run.finish(plan["rule"], plan["level"], plan["assumptions"])
    except Broken as e:
        # what was observed before the machinery broke still counts
        if run.viols:
            print("note: " + str(e)[:800])
            return run.finish(plans.PLANS[pid]["rule"], plans.PLANS[pid]["level"], plans.PLANS[pid]["assumptions"])
        print("CHECK BROKEN (%s): %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(run.scratch, ignore_errors=True)

if __name__ == "__main__":
    import check  # so that plans and this file share one Broken
    sys.exit(check.main())

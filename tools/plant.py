#!/usr/bin/env python3
"""Do not run while vcheck runs: its copies look through to /repo and /verif/target.
Makes seeded/<id>/ out of a spec: applies the edits to /repo, builds, runs the stable tests, runs the
demonstration with and without the change, and undoes the edits. usage: plant.py SPEC.py [id...]"""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = '''#!/bin/bash
# Builds main.rs (beside this file) against the tree in the current directory and runs it.
HERE="$(cd "$(dirname "$0")" && pwd)"; REPO="$PWD"
D="$(mktemp -d)"; trap 'rm -rf "$D"' EXIT
mkdir "$D/src"; cp "$HERE/main.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
speedy = { path = "$REPO"%s }
%s
T
cd "$D" && CARGO_TARGET_DIR="$D/target" timeout 280 cargo %s --offline -q%s
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def stable():
    if sh("bash /opt/vp/build.sh").returncode: return "does not build"
    out = tempfile.mktemp()
    sh("bash /opt/vp/test.sh " + out)
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(out)); os.unlink(out)
    k = next(k for k in ("passed", "stable", "pass", "tests") if k in b)
    k2 = next(k for k in ("passed", "stable", "pass", "tests") if k in o)
    miss = sorted(set(b[k]) - set(o[k2]))
    return "" if not miss else "tests fail: %s" % miss[:5]
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for b in ns["BUGS"]:
        if want and b["id"] not in want: continue
        d = os.path.join(HERE, "seeded", b["id"])
        if os.path.exists(d + "/meta.json") and not want: continue
        assert not sh("git -C /repo status --porcelain").stdout, "repo not clean"
        os.makedirs(d, exist_ok=True)
        open(d + "/main.rs", "w").write(b["demo"])
        feats = b.get("features"); f = (", " + feats) if feats else ""
        open(d + "/demo.sh", "w").write(DEMO % (f, b.get("deps", ""), b.get("cargo", "run"), b.get("args", "")))
        os.chmod(d + "/demo.sh", 0o755)
        try:
            for path, old, new in b["edits"]:
                p = os.path.join(REPO, path); t = open(p).read()
                n = b.get("nth", {}).get(old)
                if n is None:
                    assert t.count(old) == 1, (b["id"], path, t.count(old), old)
                    t = t.replace(old, new)
                else:
                    parts = t.split(old); t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
                open(p, "w").write(t)
            open(d + "/patch.diff", "wb").write(sh("git -C /repo diff").stdout)
            res = stable()
            p = sh("bash %s/demo.sh" % d, cwd=REPO); withp = p.returncode
            wout = p.stdout.decode(errors="replace")[-600:]
        finally:
            sh("git -C /repo checkout -- .")
        p = sh("bash %s/demo.sh" % d, cwd=REPO)
        ok = not res and withp != 0 and p.returncode == 0
        print(b["id"], "OK" if ok else "BAD", res, "with:", withp, "without:", p.returncode)
        print("   ", wout.strip()[-300:].replace("\n", "\n    "))
        if p.returncode: print(p.stdout.decode(errors="replace")[-1500:])
        if ok:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
main()

#!/usr/bin/env python3
"""Rewrites DESIGN.md's table of planted bugs from seeded/*/meta.json and, if given, a log of runbugs.sh."""
import json, os, re, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
state = os.path.join(here, "tools", "caught.json")
got = json.load(open(state)) if os.path.exists(state) else {}
for p in sys.argv[1:]:
    for l in open(p, errors="replace"):
        m = re.match(r"(\S+) (C\d\d) rc=(\d+)", l)
        if m: got.setdefault(m[1], {})[m[2]] = int(m[3])
for b in [b for b in got if not os.path.isdir(os.path.join(here, "seeded", b))]: del got[b]
json.dump(got, open(state, "w"), indent=0, sort_keys=True)
t = ["| Bug | Property | Needs | Caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", b, "meta.json")))
    t.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], ", ".join(c for c, r in sorted(got.get(b, {}).items()) if r == 1) or "not caught"))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
new = "<!-- bugs -->\n" + "\n".join(t) + "\n<!-- /bugs -->"
s = s.replace("@BUGS@", new) if "@BUGS@" in s else re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: new, s, flags=re.S)
open(p, "w").write(s)

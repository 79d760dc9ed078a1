#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (repairs, planted bugs) from known_findings.json and seeded/*/meta.json + seeded/caught.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
fx = [re.match(r"fixed: property=(\S+) (\S+) (.*)", e, re.S).groups() for e in json.load(open(V + "/known_findings.json"))["fixed"]]
t = "| commit | property | what failed |\n|---|---|---|\n" + "".join(f"| {c} | {p} | {w} |\n" for p, c, w in fx)
s = re.sub(r"<!-- fixes -->.*?<!-- /fixes -->", lambda m: f"<!-- fixes -->\n{t}<!-- /fixes -->", s, flags=re.S)
c = json.load(open(V + "/tools/caught.json"))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    f = f"{V}/seeded/{d}/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append(f"| {d} | {m['property']} | {c.get(d, 'not tried')} |\n")
t = "| planted bug | breaks | caught by |\n|---|---|---|\n" + "".join(rows)
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda m: f"<!-- seeds -->\n{t}<!-- /seeds -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)

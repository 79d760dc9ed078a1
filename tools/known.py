#!/usr/bin/env python3
"""Adds entries to known_findings.json: known.py PROPERTY <what> <key>...  |  known.py --fixed PROPERTY COMMIT <what>"""
import json, sys
import os
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(P))
a = sys.argv[1:]
if a[0] == "--fixed":
    e = f"fixed: property={a[1]} {a[2]} {a[3]}"
    if e not in d["fixed"]:
        d["fixed"].append(e)
else:
    for k in a[2:]:
        d["findings"] = [f for f in d["findings"] if (f["property"], f["key"]) != (a[0], k)] + [{"property": a[0], "key": k, "what": a[1]}]
json.dump(d, open(P, "w"), indent=1)

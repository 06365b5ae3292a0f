#!/usr/bin/env python3
"""DESIGN.md = notes/design_head.md + the table of planted bugs with the last result of bin/seedcheck (notes/seedresults.txt)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(V, "seeded")
res = {}
try:
    for l in open(os.path.join(V, "notes/seedresults.txt")):
        k, _, r = l.partition(": "); res[k] = r.strip()
except FileNotFoundError: pass
rows = ["| change | needs | result of the quick check |", "|---|---|---|"]
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json"))); r = res.get(d, "not run"); r = r.split(": violation")[0]
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/"), r))
open(os.path.join(V, "DESIGN.md"), "w").write(open(os.path.join(V, "notes/design_head.md")).read() + "\n".join(rows) + "\n")

#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md and the table of planted bugs, with the results of the last full run (seed_results.txt)."""
import json
import os
import re

T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
res = {}
for l in open(os.path.join(T, "seed_results.txt")):
    m = re.match(r"(\S+) (C\d\d) (CAUGHT|MISSED|TIMEOUT)", l)
    if m:
        res[m.group(1)] = m.group(3).lower()
out = [open(os.path.join(T, "design_head.md")).read().rstrip("\n"), "", "## 6. Planted bugs", "",
       open(os.path.join(T, "design_seeds.md")).read().rstrip("\n"), "", "| bug | property | breaks | needs | quick check |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    f = lambda x: x.replace("|", "/").replace("\n", " ")
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], f(m["what_it_breaks"]), f(m["needs"]), res.get(i, "?")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), [i for i in os.listdir(os.path.join(V, "seeded")) if res.get(i) != "caught"])

#!/usr/bin/env python3
"""Updates the table of planted bugs in DESIGN.md from seeded/*/meta.json and results.json (of bug.py)."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(H + "/tools/missed.txt").read().split()) if os.path.exists(H + "/tools/missed.txt") else set()
rows = ["<!-- seeds -->", "| bug | property | needs | breaks | caught |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, i)))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], "NO" if i in missed else "yes"))
rows.append("<!-- /seeds -->")
t = "\n".join(rows)
p = H + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"SEEDTABLE|<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)

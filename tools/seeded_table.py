#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json and tools/seeded_results.txt (lines: id check...)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(V, "tools", "seeded_results.txt")
if os.path.exists(p):
    for l in open(p):
        w = l.split()
        if w:
            res[w[0]] = w[1:]
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*/meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), " ".join(res.get(i, ["not caught"]))))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
i, j = s.index(a) + len(a), s.index(b)
open(f, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])

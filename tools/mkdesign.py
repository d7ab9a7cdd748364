#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md. tools/seeded-missed.txt lists those not caught."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seeded table: tools/mkdesign.py -->"
mf = os.path.join(V, "tools/seeded-missed.txt")
missed = set(open(mf).read().split()) if os.path.exists(mf) else set()
rows = ["| change | needs | breaks | caught by |", "|---|---|---|---|"]
one = lambda s: " ".join(s.split()).replace("|", "/")
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, one(m["needs"]), one(m["what_it_breaks"]), "missed" if i in missed else m["property"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = s[:s.index(MARK)] + MARK + "\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)

#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json.
   An id listed in MISSED is shown as not caught."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
rows = []
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"], MISSED.get(i, "yes")))
p = R + "/DESIGN.md"
t = open(p).read()
b, e = "<!-- seeds -->\n", "<!-- end of seeds -->\n"
block = b + "| id | property | what is broken | caught |\n|----|----------|----------------|--------|\n" + "\n".join(rows) + "\n" + e
if b in t:
    t = t[:t.index(b)] + block + t[t.index(e) + len(e):]
else:
    s = t.index("| id | property |"); x = t.index("@SEEDS@\n") + len("@SEEDS@\n")
    t = t[:s] + block + t[x:]
open(p, "w").write(t)

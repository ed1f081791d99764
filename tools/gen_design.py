#!/usr/bin/env python3
"""Brings the generated parts of DESIGN.md up to date: the bounds (from checks.py) and the table of planted bugs (from seeded/)."""
import os, re, sys, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import B
t = open(V + "/DESIGN.md").read()
for k, (q, th) in B.items():
    t, n = re.subn(r"(### %s .*?\n- Bounds, quick: ).*?(\n- Bounds, thorough: ).*?\n" % k, lambda m: m[1] + q + m[2] + th + "\n", t, count=1, flags=re.S); assert n == 1, k
t = t[:t.index("| planted bug |")] if "| planted bug |" in t else t
rows = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
R = json.load(open(V + "/tools/seedlib/caught.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); rows.append("| %s | %s | %s | %s |" % (i, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), R.get(i, "not tried")))
open(V + "/DESIGN.md", "w").write(t + "\n".join(rows) + "\n")

#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md from seeded/*/meta.json and seeded/RESULTS.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
R = json.load(open(os.path.join(S, "RESULTS.json")))
rows = ["| bug | what it breaks | needs | caught by |", "|-----|----------------|-------|-----------|"]
for d in sorted(os.listdir(S)):
    m = os.path.join(S, d, "meta.json")
    if os.path.exists(m):
        m = json.load(open(m))
        r = R.get(d, {})
        rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"], ", ".join(sorted(c for c, v in r.items() if v.get("caught"))) or "-"))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
mark = "<!-- table: tools/seedtable.py -->\n"
open(p, "w").write(s[:s.index(mark)] + mark + "\n" + "\n".join(rows) + "\n")

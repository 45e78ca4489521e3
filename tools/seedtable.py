#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = R + "/DESIGN.md"
s = open(p).read()
i = s.index("| bug | property |")
j = s.find("\n\n", i)
tail = "" if j < 0 else s[j:]
rows = ["| bug | property | what it needs to manifest |", "|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, d)))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
open(p, "w").write(s[:i] + "\n".join(rows) + (tail or "\n"))

#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from the output of bugs.py (files given as arguments)."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+)\s+(C\d\d) (CAUGHT|MISSED)", l)
        if m:
            res[m.group(1)] = m.group(3).lower()
rows = ["| property | bug | needs | quick check |", "| --- | --- | --- | --- |"]
for i in sorted(os.listdir(H + "/seeded"), key=lambda i: (json.load(open(H + "/seeded/%s/meta.json" % i))["property"], i)):
    m = json.load(open(H + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (m["property"], i, m["needs"].replace("|", "/"), res.get(i, "not run")))
p = H + "/DESIGN.md"
s = open(p).read()
a = s.index("## Planted bugs and what catches them")
s = s[:a] + "## Planted bugs and what catches them\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
print(len(rows) - 2, [i for i in res if res[i] != "caught"])

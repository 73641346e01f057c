#!/usr/bin/env python3
"""seeded_table.py LOG   rewrites the table of planted changes at the end of DESIGN.md from a log of seeded.sh"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for log in sys.argv[1:]:
    for l in open(log):
        w = l.split()
        if len(w) > 3 and w[2] in ("caught", "MISSED"):
            res[w[0]] = "caught (quick)" if w[2] == "caught" else "missed"
MARK = "<!-- planted changes -->"
d = open(V + "/DESIGN.md").read()
head = d.split(MARK)[0].rstrip() + "\n\n"
rows = ["| change | what it breaks | needs | result of the property's check |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    f = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {i} | {f(m['what_it_breaks'])} | {f(m['needs'])} | {m['property']}: {res.get(i, 'not run')} |")
open(V + "/DESIGN.md", "w").write(head + MARK + "\n" + "\n".join(rows) + "\n")

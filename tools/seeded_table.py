#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only, no check uses it)."""
import json, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
A, B = "<!-- seeded: begin -->", "<!-- seeded: end -->"
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for p in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (p.split("/")[1], m.get("caught_by", m["property"]), m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
t = open("DESIGN.md").read()
i, j = t.index(A), t.index(B)
open("DESIGN.md", "w").write(t[:i] + A + "\n" + "\n".join(rows) + "\n" + t[j:])

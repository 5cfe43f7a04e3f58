#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["needs"], m["what_it_breaks"]))
rows.sort()
out = ["| caught by | planted bug | needs | breaks |", "|---|---|---|---|"]
for r in rows:
    out.append("| %s | `%s` | %s | %s |" % r)
table = "\n".join(out) + "\n"
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
mark = "<!-- seeds -->\n"
head = t.split(mark)[0]
open(p, "w").write(head + mark + table)

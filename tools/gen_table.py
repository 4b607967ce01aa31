#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md."""
import glob, json, os
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(top, "DESIGN.md")
s = open(p).read()
head = "\n| id | property | needs |"
s = s[:s.index(head)] if head in s else s
rows = [head, "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(top, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"].replace("\n", " ").replace("|", "/")))
open(p, "w").write(s + "\n".join(rows) + "\n")

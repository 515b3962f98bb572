#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "\\|")))
s = open(V + "/DESIGN.md").read().split("<!-- seeds -->")[0]
open(V + "/DESIGN.md", "w").write(s + "<!-- seeds -->\n| id | check | effect of the change |\n|---|---|---|\n" + "\n".join(rows) + "\n")

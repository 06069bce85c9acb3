#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(V + "/seeded/*/meta.json"):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"], d.get("caught_by", d["property"])))
rows.sort()
t = open(V + "/DESIGN.md").read()
mark = "<!-- matrix -->"
t = t[:t.index(mark) + len(mark)] + "\n\n| property | planted bug | needs | caught by |\n|---|---|---|---|\n"
for p, n, needs, c in rows:
    t += "| %s | %s | %s | %s |\n" % (p, n, needs.replace("|", "/"), c)
open(V + "/DESIGN.md", "w").write(t)

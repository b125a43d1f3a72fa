#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(f"{V}/tools/caught.json"))
rows = []
for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/"), caught.get(i, "not run")))
s = open(f"{V}/DESIGN.md").read()
mark = "<!-- planted -->\n"
s = s[: s.index(mark) + len(mark)] + "| change | needs | breaks | caught by (quick tier, seed 1) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(f"{V}/DESIGN.md", "w").write(s)

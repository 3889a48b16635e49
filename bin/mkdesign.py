#!/usr/bin/env python3
"""Rewrites section 8 (seeded bugs) of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(ROOT + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "/"), m.get("needs", "").replace("|", "/")))
s = open(ROOT + "/DESIGN.md").read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "\n| seed | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n\n" + s[j:]
open(ROOT + "/DESIGN.md", "w").write(s)

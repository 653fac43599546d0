#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    f = os.path.join(here, "seeded", d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        clean = lambda s: re.sub(r"\s+", " ", str(s)).replace("|", "/").strip()
        rows.append("| %s | %s | %s |" % (d, clean(m["needs"]), clean(m["what_it_breaks"])))
table = "| change (its property is the prefix) | needs | breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n"
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeded:begin -->\n", "<!-- seeded:end -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + table + s[j:])

#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/ and tools/caught.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    c = caught.get(i, {})
    by = ", ".join(p for p in sorted(c) if c[p] == "caught") or "; ".join("%s %s" % (p, c[p]) for p in sorted(c)) or "not run"
    cell = lambda t: " ".join(str(t).split()).replace("|", "/")
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], cell(m["what_it_breaks"]), cell(m["needs"]), by))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)

#!/usr/bin/env python3
"""Rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
p = H + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n| change | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)

#!/usr/bin/env python3
"""Writes the table of planted bugs of DESIGN.md (between its markers) from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["needs"].split(". ")[0].rstrip(".")))
rows.sort()
t = "<!-- bugs -->\n| bug | property (caught by its check) | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (d, p, n) for p, d, n in rows) + "<!-- /bugs -->"
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- bugs -->.*?<!-- /bugs -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)

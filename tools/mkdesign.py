#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md (between the markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | caught by | needs |", "|---|---|---|"]
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", n, "meta.json")))
    rows.append("| %s | %s | %s |" % (n, m["property"], m["needs"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "\nSEEDS\n" in s:
    s = s.replace("\nSEEDS\n", "\n" + t + "\n")
else:
    s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)

#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (run by hand; no check uses it)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i)); rows.append("| %s | %s | %s | %s |" % (i, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), m.get("caught_by", m["property"])))
s = open(V + "/DESIGN.md").read(); b, e = "<!-- planted bugs -->\n", "<!-- end of planted bugs -->\n"
if "SEEDED_TABLE\n" in s: s = s.replace("SEEDED_TABLE\n", b + e)
s = s[:s.index(b) + len(b)] + "\n".join(rows) + "\n" + s[s.index(e):]
open(V + "/DESIGN.md", "w").write(s)

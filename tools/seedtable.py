#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json ("caught_by" is filled in by hand)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| planted | breaks | needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, n)))
    rows.append("| %s | %s | %s | %s |" % (n, m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
rows.append("<!-- /seeds -->")
s = open(V + "/DESIGN.md").read()
if "@@SEEDS@@" in s:
    s = s.replace("@@SEEDS@@", "\n".join(rows))
else:
    a, b = s.index(rows[0]), s.index(rows[-1])
    s = s[:a] + "\n".join(rows) + s[b + len(rows[-1]):]
open(V + "/DESIGN.md", "w").write(s)

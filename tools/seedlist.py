#!/usr/bin/env python3
"""Rewrite the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V+"/seeded")):
    p = V+"/seeded/"+d+"/meta.json"
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append((m["property"], d, m["what_it_breaks"].replace("\n", " "), m["needs"].replace("\n", " ")))
rows.sort()
out = ["| Planted bug | Caught by | What it breaks | Needs |", "|---|---|---|---|"]
out += ["| %s | %s | %s | %s |" % (d, p, b, n) for p, d, b, n in rows]
t = open(V+"/DESIGN.md").read()
t = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n\n"+"\n".join(out)+"\n\n<!-- /seeds -->", t, flags=re.S)
open(V+"/DESIGN.md", "w").write(t)
print(len(rows))

#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (caught by: from tools/caught.json)."""
import json, glob, os, re
h = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(h, "tools/caught.json")))
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(h, "seeded/*/meta.json"))):
    d = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {caught.get(i, '?')} |")
p = os.path.join(h, "DESIGN.md"); s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)

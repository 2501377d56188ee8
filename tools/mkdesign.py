#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers). Run by hand."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| Planted change | What it breaks | Needs | Caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| `%s` | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted -->", "<!-- /planted -->"
s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: a + "\n" + "\n".join(rows) + "\n" + b, s, flags=re.S)
open(p, "w").write(s)

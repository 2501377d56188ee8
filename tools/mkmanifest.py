#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist in lib/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "lib", "props", i.lower() + ".py")):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i,
                           thorough_cmd="python3 bin/check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=n.get("technique", "TLA+ specification, TLC model checking and trace validation of recorded calls"),
                           level="model_checking",
                           level_note=n.get("note", "Bounded: the specification is model checked within the constants of its configurations; the code is bound to it by validating the recorded calls of this run, so what no call exercises is not seen.")))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "No check built yet.")))
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks: the checks use the public API only", source_commits=[]),
         notes="TLA+ with TLC. See DESIGN.md. known-findings.jsonl lists repaired defects (kind fixed) and open ones (kind open).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

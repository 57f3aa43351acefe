#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        tech, note = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd="bash check.sh " + p, thorough_cmd="bash check.sh " + p,
                           technique=tech, level="other", level_note=note, evidence_file="evidence/%s.json" % p))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "no check built yet")))
m = dict(version=1, setup_cmd="bash check.sh", checks=checks, not_applicable=na,
         notes="Static analysis only; see DESIGN.md. No hooks in /repo.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", len(na), "not applicable")

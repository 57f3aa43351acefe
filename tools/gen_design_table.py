#!/usr/bin/env python3
"""prints the table of planted changes for DESIGN.md"""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
rows = []
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    rows.append((m["property"], i, m["what_it_breaks"], m["needs"]))
for r in sorted(rows):
    print("| %s | `%s` | %s | %s |" % r)

#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the rules' own descriptions (evidence), design_tail.md and the planted changes."""
import json, os, subprocess, re, glob
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(T, "..")
from claims import CLAIMS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = [open(os.path.join(T, "design_head.md")).read()]
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in CLAIMS:
        try:
            e = json.load(open(os.path.join(V, "evidence", i + ".json")))
        except FileNotFoundError:
            raise SystemExit("run check.sh %s first" % i)
        c = e["coverage"]
        out.append("*Technique*: %s.\n\n%s\n" % (CLAIMS[i][0], c["explanation"]))
        if e.get("assumptions"):
            out.append("*Assumes*: %s.\n" % "; ".join(e["assumptions"]))
        out.append("*On this tree*: %d functions, %d obligations.\n" % (len(c["functions_analysed"]), c["obligations"]))
    else:
        out.append("Not claimed: %s.\n" % NOT_APPLICABLE[i].rstrip("."))
tail = open(os.path.join(T, "design_tail.md")).read()
tab = subprocess.run(["python3", os.path.join(T, "gen_design_table.py")], stdout=subprocess.PIPE, text=True).stdout
out.append(tail.replace("@TABLE@", tab.rstrip()))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))

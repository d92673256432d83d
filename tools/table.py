#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
same = "needs the generators directed by constants"
note = {"c12-detail-entropy": "missed at first; entropy slope at small density added", "c16-nan-hang": "no verdict at first; hang localisation added",
 "c01-dred-clamp": "missed at first; range of density widened", "c17-snap": same, "c02-window": same, "c12-jt-window": same, "c10-h2s-wet": same, "c05-flag-7": same,
 "c22-six": "missed at first; compositions of C22 widened to rich gas", "c16-last": "missed at first; direct writes to the public fraction field added to the histories (C08, C16)"}
rows = []
for d in sorted(glob.glob(R + "/seeded/*")):
    i = os.path.basename(d); m = json.load(open(d + "/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|', '/')} | yes{'; ' + note[i] if i in note else ''} |")
s = open(R + "/DESIGN.md").read()
a, b = s.index("<!-- table -->"), s.index("<!-- end -->")
s = s[:a] + "<!-- table -->\n| bug | property | needs | caught by the property's quick check |\n|----|----|----|----|\n" + "\n".join(rows) + "\n" + s[b:]
open(R + "/DESIGN.md", "w").write(s)

#!/usr/bin/env python3
"""Writes the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(glob.glob(os.path.join(R, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
s = open(os.path.join(R, "DESIGN.md")).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
t = "<!-- seeds -->\n| bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(os.path.join(R, "DESIGN.md"), "w").write(s[:a] + t + s[b:])
print(len(rows))

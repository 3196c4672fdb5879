#!/usr/bin/env python3
"""Writes MANIFEST.json from runner/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "runner"))
from config import CHECKS  # noqa: E402
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 runner/setup.py", checks=[], not_applicable=[],
         notes="No hooks in /repo: every monitor observes the public API, interposed libcrypto/libc calls or compiler instrumentation. "
               "Defects repaired by fix: commits are listed in known_findings.txt.")
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append(dict(property=p["id"], reason="check under construction"))
        continue
    cmd = "python3 runner/check.py " + p["id"]
    m["checks"].append(dict(property=p["id"], quick_cmd=cmd + " quick", thorough_cmd=cmd + " thorough", technique=c["technique"], level=c.get("level", "exploration"), level_note=c["level_note"]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

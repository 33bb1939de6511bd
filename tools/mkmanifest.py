#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks present."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = json.load(open(os.path.join(HERE, "tools", "technique.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(HERE, "checks", pid.lower() + ".py")
    if os.path.exists(f):
        src = open(f).read()
        lev = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
        checks.append({"property": pid, "quick_cmd": f"./run_check.py {pid} quick", "thorough_cmd": f"./run_check.py {pid} thorough",
                       "evidence_file": f"evidence/{pid}.json", "technique": TECH[pid][0], "level": lev, "level_note": TECH[pid][1]})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
doc = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "Checks import smote_variants straight from /repo's working tree (pure Python, no build step). Replay a violation with ./run_check.py --replay <file>."}
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

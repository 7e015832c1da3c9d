#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property whose check is registered in the harness."""
import json, os, re, glob
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
have = set()
for f in glob.glob(here + "/harness/*.go"):
    have |= set(re.findall(r'register\(&Prop\{ID: "(C\d\d)"', open(f).read()))
NOTE = {}
exec(open(os.path.join(here, "tools", "notes.py")).read())
checks, na = [], []
for l in open(here + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in have:
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + t,
                       "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")

#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_props.py, notes.py, design_tail.md and seeded/*/meta.json.

tools/catches.txt holds lines "<id> <property> caught|missed", as written by catch.sh."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
exec(open(here + "/design_props.py").read())
exec(open(here + "/notes.py").read())
titles = {}
for l in open(root + "/properties.jsonl"):
    p = json.loads(l); titles[p["id"]] = p["title"]
cost = {}
try:
    cost = json.load(open(here + "/cost.json"))
except OSError: pass
catches = {}
try:
    for l in open(here + "/catches.txt"):
        i, p, w = l.split(); catches[i] = (p, w)
except OSError: pass
out = [open(here + "/design_head.md").read()]
quick = {}
for f in sorted(os.listdir(root + "/harness")):
    if f.startswith("p_"):
        for m in re.finditer(r'ID: "(C\d\d)",.*?Quick: (\d+), Thorough: (\d+)', open(root + "/harness/" + f).read()):
            quick[m[1]] = (m[2], m[3])
for i in sorted(P):
    spec, gen, oracle, why = P[i]
    out.append("\n### %s %s\n\n*Specified:* %s.\n*Technique:* %s.\n*Generated:* %s; %s cases (thorough: %s)%s.\n*Oracle:* %s.\n*Beyond tests:* %s.\n" % (
        i, titles[i], spec, NOTE[i][0], gen, *quick[i], (", about %s s" % cost[i]) if i in cost else "", oracle, why))
    c = [k for k in sorted(catches) if catches[k][0] == i]
    if c:
        out.append("*Planted:* " + "; ".join("%s (%s)" % (k, catches[k][1]) for k in c) + ".\n")
out.append("\n" + open(here + "/design_tail.md").read())
out.append("| planted bug | property | needs | result |\n|---|---|---|---|\n")
for k in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(root + "/seeded/" + k + "/meta.json"))
    out.append("| %s | %s | %s | %s |\n" % (k, m["property"], m["needs"], catches.get(k, ("", "?"))[1]))
open(root + "/DESIGN.md", "w").write("".join(out))

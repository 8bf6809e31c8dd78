#!/usr/bin/env python3
"""writes DESIGN.md from design.in, plan.py, properties.jsonl, known_findings.jsonl and seeded/"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN
sys.path.insert(0, V + "/tools")
from oracles import ORACLE, SEEN
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
o = []
for p in sorted(PLAN):
    d, q = PLAN[p], props[p]
    fns = []
    for e in d["entries"]:
        if e["fn"] not in fns: fns.append(e["fn"])
    orc, cost = ORACLE[p]
    o.append("### %s %s\n" % (p, q["title"]))
    o.append("* code: %s; entries: %s" % ("; ".join(m["where"] for m in q["anchors"]["mechanism"]), ", ".join("`%s`" % f for f in fns)))
    o.append("* oracle: " + orc)
    o.append("* bounds: " + d["bounds"])
    o.append("* outside: " + d["outside"])
    o.append("* cost: " + cost + "\n")
f = ["| property | commit | what failed |", "|---|---|---|"]
for l in open(V + "/known_findings.jsonl"):
    d = json.loads(l); f.append("| %s | %s | %s |" % (d["property"], d["id"], d["what"].replace("|", "\\|")))
s = ["| planted bug | property | what it needs | caught |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json") + glob.glob(V + "/planted/*/meta.json")):
    i = m.split("/")[-2]; d = json.load(open(m))
    s.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "\\|").replace("\n", " "), SEEN.get(i, "yes, by %s" % d["property"])))
t = open(V + "/tools/design.in").read()
t = t.replace("@PROPERTIES@", "\n".join(o)).replace("@FINDINGS@", "\n".join(f)).replace("@SEEDS@", "\n".join(s))
open(V + "/DESIGN.md", "w").write(t)

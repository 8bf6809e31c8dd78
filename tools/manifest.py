#!/usr/bin/env python3
"""regenerates /verif/MANIFEST.json from plan.py and properties.jsonl"""
import json, subprocess, sys
sys.path.insert(0, "/verif")
from plan import PLAN, NOT_APPLICABLE
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if " verif hook" in l]
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "cfg(posy_verif)", "enable": "RUSTFLAGS=\"--cfg posy_verif\" and POSY_VERIF_ROOT=<harness root .rs file> (check.py does both)", "source_commits": hooks},
     "checks": [], "not_applicable": [],
     "notes": "Every check rebuilds posy from /repo to LLVM bitcode, explores it symbolically with the executor in /verif/vsym (z3), replays counterexamples natively. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in PLAN:
        pl = PLAN[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "symbolic execution of the compiled code (LLVM IR regenerated from /repo) with z3 deciding every branch and assertion; " + pl.get("technique", "bounded symbolic inputs"),
            "level": pl.get("level", "model_checking"), "level_note": "exhaustive within: " + pl["bounds"] + (". Outside: " + pl["outside"] if pl.get("outside") else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")

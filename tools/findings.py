#!/usr/bin/env python3
"""adds a fixed entry: findings.py PID COMMIT 'what failed'"""
import json, sys
p, c, w = sys.argv[1:4]
open("/verif/known_findings.jsonl", "a").write(json.dumps({"property": p, "id": c, "status": "fixed", "what": w, "record": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")

#!/usr/bin/env python3
"""fixed.py PID COMMIT TEXT: append a repaired defect to known_findings.jsonl"""
import json, os, sys
p, c, t = sys.argv[1:4]
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
with open(f, "a") as o:
    o.write(json.dumps({"property": p, "status": "fixed", "what": f"fixed: property={p} {c} {t}"}) + "\n")

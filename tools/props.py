#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import targets

P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, na=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  tech=tech, note=note, na=na, observe=observe or []))


exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": m[0], "where": m[1]} for m in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if p["na"] or p["id"] not in targets.TARGETS:
        na.append({"property": p["id"], "reason": p["na"] or "no check has been built for it yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "bin/check %s" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "bin/check all --build-only || true", "checks": checks, "not_applicable": na,
           "notes": "Every check builds its harness and the sources it needs from /repo's working tree with ninja (bin/check) and runs generated-input search with shrinking and replay (harness/pbt.hpp)."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py and bin/plan.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "bin"), os.path.join(ROOT, "tools")]
import plan, props
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        rec = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(rec) + "\n")
ids = [p["id"] for p in props.PROPS]
assert len(set(ids)) == len(ids)
checks = []
for p in props.PROPS:
    if p["id"] not in plan.PROPERTIES:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bin/check %s quick" % p["id"],
        "thorough_cmd": "bin/check %s thorough" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["level_note"],
    })
na = [{"property": p["id"], "reason": p["na"]} for p in props.PROPS if p["id"] not in plan.PROPERTIES]
json.dump({
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo. Every check rebuilds its harness from /repo's working tree (see DESIGN.md); generated cases are a pure "
             "function of VERIF_SEED; bin/check --replay FILE re-runs a recorded counterexample.",
}, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(ids), "properties,", len(checks), "checks")
for i in plan.PROPERTIES:
    assert i in ids, i

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions in props_def.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props_def import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
S = "src/iOverlay"
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs", "configurations"]), "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    if p["id"] in {n["property"] for n in NOT_APPLICABLE}:
        continue
    cmd = p.get("cmd", "bash run.sh %s" % p["id"])
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks were added to /repo: every monitor observes the public API of the crate. Repaired and known defects: known-findings.txt."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")

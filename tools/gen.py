#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table in props.py, so the two stay in step with the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
from registry import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in CHECKS:
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                   "technique": p.get("technique", "TLA+ specification model-checked with TLC; traces of the real code validated against it by TLC"),
                   "level": "model_checking", "level_note": p["level_note"]})
na = [n for n in NOT_APPLICABLE] + [{"property": p["id"], "reason": "check not built yet"} for p in PROPS if p["id"] not in CHECKS]
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not applicable")

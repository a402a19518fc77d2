#!/usr/bin/env python3
"""Writes MANIFEST.json from the passes table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
from passes import PASSES, TECH, LEVEL_NOTE, NOT_APPLICABLE
checks = []
for p in sorted(PASSES):
    checks.append({
        "property": p,
        "quick_cmd": "./check %s --tier quick" % p,
        "thorough_cmd": "./check %s --tier thorough" % p,
        "technique": TECH[p],
        "level": "model_checking",
        "level_note": LEVEL_NOTE[p],
    })
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items()) if k not in PASSES],
    "notes": "Every check rebuilds its explorer against /repo's working tree; no hooks in /repo are needed.",
}
root = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

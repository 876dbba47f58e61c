#!/usr/bin/env python3
"""writes MANIFEST.json from harness/plan.py and properties.jsonl"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import plan  # noqa: E402

checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    c = plan.CHECKS.get(p["id"])
    if c is None:
        missing.append(dict(property=p["id"], reason="no check yet"))
        continue
    checks.append(dict(
        property=p["id"],
        quick_cmd="./check.py %s --tier quick" % p["id"],
        thorough_cmd="./check.py %s --tier thorough" % p["id"],
        technique="TLA+ specification checked by TLC; " + ("model behaviours replayed into the code and " if c.get("models") else "") + "recorded histories of the code validated against it by TLC",
        level="model_checking",
        level_note=plan.note(p["id"])))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=missing), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

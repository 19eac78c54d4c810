#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the registered checks."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
import props
import check as chk
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
have = set()
for m in chk.MODULES:
    have |= set(importlib.import_module("vf." + m).CHECKS)
checks, na = [], []
for p in props.P:
    i = p["id"]
    if i in have:
        n = NOTES.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "python3 harness/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 harness/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": n.get("technique", "TLA+ specification checked with TLC; traces of the real code validated against it"),
            "level": "model_checking",
            "level_note": n.get("note", "Bounded: every event of the recorded runs (TLC-enumerated small inputs and seeded random ones) is decided by the TLA+ specification; trusts the libraries underneath."),
        })
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "no check built for it yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are driven by harness/check.py; specifications are in spec/. No hooks are needed in /repo: the public API exposes the abstract state."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")

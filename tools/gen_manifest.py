#!/usr/bin/env python3
"""Writes MANIFEST.json. NOT_YET lists properties without a check (with the reason)."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
NOTE = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
checks = []
for p in props:
    if p["id"] in NA:
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3-vt govc/check.py %s" % p["id"], thorough_cmd="python3-vt govc/check.py %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique="contract-based deductive verification of the Go code (SSA, verification conditions, SMT)",
        level="proof", level_note=NOTE.get(p["id"], NOTE["default"])))
m = dict(version=1, setup_cmd="python3-vt govc/setup.py", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
    notes="No hooks in /repo: contracts are kept beside the code in /verif/contracts and are bound to the functions of the current tree by name and signature on every run.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

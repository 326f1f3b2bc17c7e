#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; never by a check)."""
import json, os, importlib, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "docs"))
from proptable import PROPS, NA
props, checks = [], []
for p in PROPS + NA:
	props.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
		"anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
	assert len(p["title"]) <= 80, p["id"]
for p in PROPS:
	mod = importlib.import_module("checks."+p["id"].lower())
	checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
		"technique": "static analysis: " + mod.TECHNIQUE, "level": mod.LEVEL, "level_note": p["note"]})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
	for p in props: f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
	"notes": "Pure static analysis of /repo's current source with the Python standard library (ast) and, for the C cores, clang's AST dump. No code of the repository is imported or run by any check. python3 check.py <ID> [quick|thorough]."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1)
print(len(props), "properties", len(checks), "checks")

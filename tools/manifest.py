#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "FLECSPH_VERIF", "enable": "No hook is needed: the harnesses include the unmodified headers and drivers of /repo."},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "bin/check %s --tier quick" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c[2], "level": c[1], "level_note": c[3]})
    else:
        m["not_applicable"].append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no check yet (in progress)")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

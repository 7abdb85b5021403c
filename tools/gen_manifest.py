#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(V, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = {}
out = dict(version=1, setup_cmd="python3 /verif/check.py --build-all", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        out["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="property-based testing: " + c["technique"], level=c.get("level", "exploration"), level_note=c["level_note"]))
    else: out["not_applicable"].append(dict(property=i, reason=na.get(i, "no check has been built for it yet")))
out["notes"] = "No hooks are needed in /repo: the harnesses compile /repo/src directly. GAPP_REPO may name another tree for experiments; the registered commands use /repo."
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

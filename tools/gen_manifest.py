#!/usr/bin/env python3
"""Writes MANIFEST.json. The notes say what each check assures."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BFS = "explicit-state model checking of the real code: exhaustive breadth-first search over implementation states within bounds, every transition compared with a reference model"
DFS = "stateless model checking of the real code: exhaustive depth-first enumeration of all bounded histories under the change-propagating engine, compared with a reference model"
COMMON = " Exhaustive within the bounds listed in DESIGN.md and in the evidence file; trusts the adapton engine, the Rust standard library and the reference model; says nothing beyond the bounds."
CLAIMS = json.load(open(os.path.join(root, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        c = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": {"bfs": BFS, "dfs": DFS, "both": BFS + "; and " + DFS}[c["kind"]],
            "level": "model_checking", "level_note": c["note"] + COMMON})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the harness crates use the public API only. VERIF_SEED is recorded but unused: nothing is random, every choice is enumerated."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

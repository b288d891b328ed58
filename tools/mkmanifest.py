#!/usr/bin/env python3
"""MANIFEST.json from mc/plans.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
import plans
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.CHECKS:
        c = plans.CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=c.get("technique", plans.TECHNIQUE), level="model_checking",
                           level_note=c.get("level_note", "exhaustive within the stated bounds on the real code: " + c["bounds"])))
    else:
        na.append(dict(property=i, reason=plans.NOT_YET.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 -m py_compile run.py mc/plans.py",
         hooks=dict(guard="LIBGRPP_VERIF", enable="no hooks are needed: the guard is not used in /repo", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All checks compile /repo's current sources (with their own flags) into /verif/build and explore them exhaustively within stated bounds; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

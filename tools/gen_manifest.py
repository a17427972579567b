#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "verif", "enable": "no hooks are committed in /repo: the checks build its working tree with -overlay and -modfile (tools/build.py)", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "One runner (run.py) builds the check programs from /repo's working tree, enumerates, confirms violations by re-running the failing case, and writes the evidence."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                            "technique": c["technique"], "level": c["level"], "level_note": c["level_note"] + " Bounds: " + c["bounds"] + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "model checking applies, but the check is not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")

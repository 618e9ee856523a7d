#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has checks/<id>/check.py."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i, "check.py")) and i in notes:
        n = notes[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i,
                       "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": notes.get("_na", {}).get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "CATEARS_VERIF", "enable": "no hooks were needed: checks compile /repo/src unmodified (concurrency checks use the compiler's thread-sanitizer instrumentation with a runtime of their own)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "run.py <id> quick|thorough; run.py <id> --replay FILE re-runs one recorded execution. known_findings.txt lists defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", len(na), "not")

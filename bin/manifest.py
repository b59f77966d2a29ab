#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from checks import CHECKS, TODO
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --build",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's own sources unchanged and reach schedules and faults by link-time interposition and by the public callbacks", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                            "technique": CHECKS[i]["technique"], "level": "model_checking", "level_note": CHECKS[i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": TODO.get(i, "no check has been built for it yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

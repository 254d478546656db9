#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/targets.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from targets import TARGETS, NOT_APPLICABLE, LEVEL_NOTES
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "deterministic simulation with fault injection: seeded scheduler over simulated tasks and MPI"
NOTE = ("Seeded sampling of schedules, message timings, faults and inputs of small instances; a clean run is evidence, not proof. "
        "Trusts the simulated task runtime, MPI and memory pool to behave as specified, and the system BLAS/LAPACK. ")
m = {"version": 1, "setup_cmd": "python3 tools/check.py setup", "checks": [], "not_applicable": [],
     "notes": "Checks build DLA-Future's working tree together with the simulator (sim/) and the scenarios (harness/); nothing in /repo is guarded or hooked."}
for p in props:
    i = p["id"]
    if i in TARGETS:
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py run %s --tier quick" % i,
                            "thorough_cmd": "python3 tools/check.py run %s --tier thorough" % i,
                            "technique": TECH, "level": "exploration", "level_note": NOTE + LEVEL_NOTES.get(i, "")})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "Check under construction.")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

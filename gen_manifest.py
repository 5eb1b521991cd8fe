#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "technique": "deterministic simulation: seeded search over caller interleavings and injected faults, with a reference-model oracle",
            "level": "exploration",
            "level_note": PROPS[i].get("note", "the library's real headers run inside the simulator; every call is checked against "
                          "an independent reference on the abstract graph, before, during and after injected allocation failures and "
                          "callback exceptions, with callers interleaved at every seam; sampled, not exhaustive"),
        })
    else:
        na.append({"property": i, "reason": "no check claimed yet"})
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py props.py",
     "hooks": {"guard": "GRAPH_SIM_HOOKS", "enable": "not needed: every seam (callbacks, value types, input ranges, operator new, "
               "static-initialisation guards) is reached from outside /repo, so no source line is guarded by it", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

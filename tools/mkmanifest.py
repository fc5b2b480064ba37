#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the drivers that exist."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("TLC explores the specification's design model exhaustively within the stated constants, and validates every "
        "recorded behaviour of the real code (seeded, plus one per model transition where histories matter) against "
        "the same specification. Trusted: TLC, the simulated MPI runtime, the projection of floats to rationals.")
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(R, "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough ./check.py %s" % i,
                       "technique": "TLA+ specification model-checked with TLC; traces of the real code validated against it by TLC",
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the code is observed through its public interface over a simulated mpi4py."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")

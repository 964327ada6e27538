#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per props/cNN.py, the rest under not_applicable."""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/lib"]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/props/%s.py" % i.lower()):
        m = importlib.import_module("props." + i.lower())
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": getattr(m, "TECHNIQUE", "TLA+ specification; TLC-generated and seeded histories run on the real code, recorded traces judged by TLC"),
                       "level": getattr(m, "LEVEL", "model_checking"), "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+, TLC). See DESIGN.md. No hooks in /repo: the checks compile /repo's sources as they are."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")

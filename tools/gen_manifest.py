#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py, meta.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import plan, meta
checks = []
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    assert i in plan.PLANS, i
    t, _, n = meta.M[i]
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py check " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i,
                   "technique": t, "level": "exploration", "level_note": n})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup",
           "hooks": {"guard": "go build -overlay (no guarded code is committed in /repo)",
                     "enable": "run.py builds with -overlay, which adds the one-line probe files of /verif/overlay to the packages under test",
                     "source_commits": []},
           "checks": checks, "not_applicable": [],
           "notes": "Repairs of genuine defects are the fix: commits of /repo, listed in known_findings.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(V + "/harness/vf/checks/%s.py" % pid):
        m = importlib.import_module("vf.checks." + pid)
        checks.append({
            "property": pid,
            "quick_cmd": "python3 harness/check.py " + pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py " + pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": getattr(m, "TECHNIQUE", "TLA+ specification checked with TLC; behaviours generated by TLC replayed into the code (conformance)"),
            "level": m.LEVEL,
            "level_note": m.NOTE})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check has been built for it") if (NA := globals().get("NA", {})) is not None else ""})
json.dump({"version": 1, "setup_cmd": "python3 harness/check.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: everything is observed through public interfaces; the commits in /repo are fix: commits only (see known_findings.json)."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")

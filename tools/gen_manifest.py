#!/usr/bin/env python3
"""Writes MANIFEST.json from levels.json and properties.jsonl."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model checking of a TLA+ specification with TLC and TLC trace validation of recorded runs of the real code"
with open(os.path.join(VERIF, "tools", "levels.json")) as f:
    NOTE = json.load(f)
with open(os.path.join(VERIF, "properties.jsonl")) as f:
    ALL = [json.loads(x)["id"] for x in f]

checks = []
for pid in sorted(NOTE):
    checks.append({
        "property": pid,
        "quick_cmd": "VERIF_TIER=quick python3 /verif/tools/check.py %s" % pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 /verif/tools/check.py %s" % pid,
        "evidence_file": "/verif/evidence/%s.json" % pid,
        "technique": MC,
        "level": "model_checking",
        "level_note": NOTE[pid]})
m = {"version": 1,
     "setup_cmd": "python3 /verif/tools/build.py",
     "hooks": {"guard": "none", "enable": "The sources of /repo are compiled unmodified against stand-in libraries; observation happens in the stand-ins.", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "The specification of this part is still being written; no check is claimed yet."} for p in ALL if p not in NOTE],
     "notes": "See DESIGN.md."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

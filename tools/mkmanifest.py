#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with props/<ID>.py, not_applicable for the others."""
import json, os
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = json.load(open('/verif/tools/na.json')) if os.path.exists('/verif/tools/na.json') else {}
NOTES = json.load(open('/verif/tools/notes.json')) if os.path.exists('/verif/tools/notes.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f"/verif/props/{i}.py"):
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": n.get("technique", "TLA+ specification checked with TLC; its behaviours replayed on the real code"),
                       "level": n.get("level", "model_checking"),
                       "level_note": n.get("note", "bounded: shapes, parameters and depths as in DESIGN.md; every exported behaviour replayed on the code")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet: the specification for it is not bound to the code")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks are needed", "source_commits": []},
           "checks": checks, "not_applicable": na}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), "checks", len(na), "not applicable")

#!/usr/bin/env python3
"""Writes MANIFEST.json: python3 tools/manifest.py  (claims = the checks/*.py present)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NOTE = {}
NA = {}
exec(open(R + "/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(R + "/checks/%s.py" % i.lower()) and i in NOTE:
        level, tech, note = NOTE[i]
        checks.append({"property": i, "quick_cmd": "./check " + i,
                       "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile /repo's sources natively with harness/server.c (main renamed by -Dmain). See DESIGN.md."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")

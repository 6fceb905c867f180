#!/usr/bin/env python3
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(V + "/tools/level_notes.py").read())
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(V + "/harness/%s*.cpp" % i.lower()) and i not in globals().get("NOT_APPLICABLE", {}):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": TECH.get(i, TECH["default"]), "level": "model_checking",
                       "level_note": NOTE.get(i, NOTE["default"]), "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": globals().get("NOT_APPLICABLE", {}).get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Stateless model checking of the real headers under a controlled scheduler (mcrt/). No hooks in /repo. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for pid in sorted(CHECKS):
        c = CHECKS[pid]
        assert len(c["title"]) <= 80, c["title"]
        f.write(json.dumps({"id": pid, "title": c["title"], "statement": c["statement"],
            "quantifier": {"over": c["over"], "text": c["quant"]}, "why_tests_cant": c["why"],
            "anchors": {"files": c["files"], "mechanism": [{"name": n, "where": w} for n, w in c["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 /verif/lib/setup.py", "checks": [], "not_applicable": [],
     "notes": "python3 /verif/check.py <id> [quick|thorough]; python3 /verif/check.py replay <file> runs one recorded violation again. See DESIGN.md."}
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    if c["parts"]:
        m["checks"].append({"property": pid, "quick_cmd": "python3 /verif/check.py %s quick" % pid,
            "thorough_cmd": "python3 /verif/check.py %s thorough" % pid, "evidence_file": "evidence/%s.json" % pid,
            "technique": c["tech"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": pid, "reason": c["na"] or "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(CHECKS), "properties,", len(m["checks"]), "checks")

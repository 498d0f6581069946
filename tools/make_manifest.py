#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(here, "tools", "level_notes.json")))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": NOTES[i]["technique"],
            "level": "exploration",
            "level_note": NOTES[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")

#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties, the list of checks in the harness and tools/levels.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
info = json.load(open(f"{V}/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    e = info.get(i)
    if not e:
        na.append({"property": i, "reason": "no check yet"})
    elif "na" in e:
        na.append({"property": i, "reason": e["na"]})
    else:
        checks.append({
            "property": i,
            "quick_cmd": f"bash /verif/check {i} --tier quick",
            "thorough_cmd": f"bash /verif/check {i} --tier thorough",
            "technique": e["technique"],
            "level": "exploration",
            "level_note": e["note"],
            "evidence_file": f"evidence/{i}.json",
        })
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check is `check <ID>`: random programs or data from a recorded choice stream, judged by the oracle named in technique; a failure is shrunk and written to /verif/replays, and `bash /verif/check --replay <ID> <file>` runs it again. Deliberate findings are in /verif/known_findings.txt."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

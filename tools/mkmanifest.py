#!/usr/bin/env python3
"""Generate MANIFEST.json from the registry in sa/parts.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
import parts
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i in parts.PLAN:
        tech, note = parts.TECH.get(i, parts.TECH["*"])
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                       "technique": tech, "level": "other", "level_note": note})
na = [{"property": i, "reason": parts.NOT_APPLICABLE.get(i, "no check has been built for this property yet")}
      for i in ids if i not in parts.PLAN]
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
T = json.load(open(os.path.join(R, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    h = os.path.join(R, "harness", i.lower() + ".cpp")
    h2 = os.path.join(R, "harness", i.lower() + ".py")
    t = T.get(i)
    if t and "na" not in t and (os.path.exists(h) or os.path.exists(h2)):
        checks.append({"property": i, "quick_cmd": "bash run.sh " + i, "thorough_cmd": "bash run.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": (t or {}).get("na", "its check is not built yet")})
hooks = {"guard": "none", "enable": "no hooks: the harnesses use the public interface only", "source_commits": []}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3
"""Write MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property: (technique, level, note)
T = json.load(open(os.path.join(V, "tools/checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in props:
    if p in T["checks"]:
        t = T["checks"][p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough",
                            "technique": t[0], "level": t[1], "level_note": t[2]})
    else:
        m["not_applicable"].append({"property": p, "reason": T["not_applicable"].get(p, "no check built yet")})
m["notes"] = "The harness is compiled into /repo with go build -overlay; no hooks are committed in /repo. Known findings are listed in known_findings.json."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

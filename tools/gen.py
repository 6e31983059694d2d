#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
import props, checks
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in props.PROPS:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        man["checks"].append({
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "stateless model checking: exhaustive choice-tree enumeration of the real code against a reference model"),
            "level": "model_checking",
            "level_note": c["note"],
        })
    else:
        man["not_applicable"].append({"property": i, "reason": checks.NA.get(i, "no check built yet (work in progress)")})
man["notes"] = "No hooks in /repo are needed: the harnesses instantiate the header templates of /repo/include and compile /repo/src directly."
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(man["checks"]), "claimed,", len(man["not_applicable"]), "not claimed")

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks.json and notes.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = json.load(open(os.path.join(V, "bin/checks.json")))
notes = json.load(open(os.path.join(V, "bin/notes.json")))
out = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": [], "not_applicable": [],
       "notes": "Property based testing with pgregory.net/rapid: bin/check.py builds a harness test binary against "
                "/repo's working tree and runs it over generated cases in several processes; see DESIGN.md. No hooks in /repo."}
for p in props:
    i = p["id"]
    if i in checks:
        n = notes[i]
        out["checks"].append({
            "property": i,
            "quick_cmd": f"python3 bin/check.py {i} quick",
            "thorough_cmd": f"python3 bin/check.py {i} thorough",
            "technique": n["technique"],
            "level": checks[i].get("level", "exploration"),
            "level_note": n["note"],
        })
    else:
        out["not_applicable"].append({"property": i, "reason": notes.get(i, {}).get("na", "no check has been built for it yet")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the registered harnesses."""
import json, os, re, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {}
for f in sorted(glob.glob(V + "/props/*.cpp")):
    for m in re.finditer(r'Reg \w+\(\{"(C\d+)"', open(f).read()): have[m.group(1)] = f
notes = json.load(open(V + "/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = notes.get(i, {})
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "technique": n.get("technique", "property-based testing: generated cases against an explicit oracle, shrunk on failure"),
            "level": n.get("level", "exploration"),
            "level_note": n.get("note", "Random exploration with shrinking; assumes the bounds listed in DESIGN.md.")})
    else: na.append({"property": i, "reason": notes.get(i, {}).get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Every check rebuilds the library from /repo with AddressSanitizer into /verif/build."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks")

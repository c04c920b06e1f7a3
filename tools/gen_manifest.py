#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os, subprocess, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
src = open(os.path.join(root, "sim/src/props/mod.rs")).read()
claimed = sorted(set(re.findall(r"\bC\d\d\b", src)))
notes = {}
exec(open(os.path.join(root, "tools/notes.py")).read())
checks = []
for p in claimed:
    checks.append(dict(property=p,
        quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
        technique="deterministic simulation with fault injection: " + notes[p][0],
        level="exploration", level_note=notes[p][1]))
na = [dict(property=p, reason=not_applicable.get(p, "no check yet: work in progress")) for p in props if p not in claimed]
json.dump(dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")

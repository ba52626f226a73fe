#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"{R}/checks/{i}.mjs"
    if not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, "No check is registered for this property yet.")))
        continue
    s = open(f).read()
    tech = re.search(r"technique:\s*'([^']*)'", s)
    note = re.search(r"note:\s*'([^']*)'", s)
    assert tech and note, i
    checks.append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough",
        evidence_file=f"evidence/{i}.json", technique=tech.group(1), level="exploration", level_note=note.group(1)))
m = dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na)
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{R}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in na])

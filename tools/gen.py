#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py."""
import importlib
import json
import os
import pkgutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)
import props  # noqa
for m in sorted(x.name for x in pkgutil.iter_modules(props.__path__)):
    importlib.import_module("props." + m)
import check  # noqa

have = check.table()
ids = [d["id"] for d in props.ALL]
assert len(ids) == len(set(ids)), "duplicate id"
order = sorted(props.ALL, key=lambda d: ("AESHITFGN".find(d["id"][0]), d["id"]))
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for d in order:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps({k: v for k, v in d.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
checks, na = [], []
for d in order:
    i = d["id"]
    if "_na" in d or i not in have:
        na.append({"property": i, "reason": d.get("_na") or "no check built yet"})
        if "_na" not in d:
            print("no rule for", i)
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "technique": d["_technique"], "level": "other", "level_note": d["_note"]})
for i in have:
    if i not in ids:
        print("rule without property text", i)
m = {"version": 1, "setup_cmd": "python3 -m sa.setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: nothing in /repo is instrumented. Defect repairs are the fix: commits listed in known_findings.txt."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")

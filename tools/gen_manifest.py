#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present (TECH, NOTE, LEVEL in each)."""
import ast
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(HERE, "mon", "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        missing.append({"property": p["id"], "reason": "no check has been built for it yet"})
        continue
    tree = ast.parse(open(f).read())
    const = {t.targets[0].id: t.value for t in tree.body if isinstance(t, ast.Assign)
             and isinstance(t.targets[0], ast.Name)}
    get = lambda k, d: ast.literal_eval(const[k]) if k in const else d
    checks.append({
        "property": p["id"], "quick_cmd": "./run.sh %s --tier quick" % p["id"],
        "thorough_cmd": "./run.sh %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": get("TECH", "runtime monitoring: independent oracle over random executions"),
        "level": get("LEVEL", "exploration"),
        "level_note": get("NOTE", get("RULE", ""))})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": missing}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(missing), "missing")

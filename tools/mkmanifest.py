#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif/bin")
import checks
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
ch = []
for p in props:
    if p in checks.CHECKS:
        tech, note = checks.NOTES[p]
        ch.append(dict(property=p, quick_cmd="bin/check %s --tier quick" % p, thorough_cmd="bin/check %s --tier thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=tech, level="model_checking", level_note=note))
na = [dict(property=p, reason=checks.NA.get(p, "no check built yet")) for p in props if p not in checks.CHECKS]
m = dict(version=1, setup_cmd="bin/setup", checks=ch, not_applicable=na,
         notes="Specifications in spec/*.tla (TLA+, TLC). No hooks in /repo: drivers use exported API; checks that need schedules or in-package access use go build -overlay.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(ch), "checks;", len(na), "not applicable")

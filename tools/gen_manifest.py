#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_STATE = ("TLA+ specification (spec/%s) model checked with TLC: properties as invariants and action properties; "
           "conformance: TLC's state graph turned into edge-covering walks, and TLC -simulate behaviours, replayed "
           "step by step on the real endpoints, every observable compared after each step")
CHECKS = {}


def c(ids, spec, note, level="model_checking", technique=T_STATE):
    for p in ids.split():
        CHECKS[p] = dict(property=p, quick_cmd="/opt/venv/bin/python harness/check.py %s quick" % p,
                         thorough_cmd="/opt/venv/bin/python harness/check.py %s thorough" % p,
                         technique=technique % spec if "%s" in technique else technique, level=level, level_note=note)


exec(open(os.path.join(ROOT, "tools", "checks_list.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
man = {"version": 1, "setup_cmd": "bash tools/setup.sh",
       "checks": [CHECKS[p] for p in props if p in CHECKS],
       "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in CHECKS]}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not claimed")

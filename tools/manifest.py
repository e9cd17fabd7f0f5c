#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from checks.py, properties.py and not_applicable.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS
from not_applicable import NOT_APPLICABLE
verif = os.path.dirname(here)
exec(open(os.path.join(here, "properties.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(verif, "properties.jsonl"))]
assert len(set(ids)) == len(ids)
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
for i in ids:
    assert i in CHECKS or i in NOT_APPLICABLE, i
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                 "technique": c["technique"], "level": c["level"], "level_note": c["note"]} for i, c in sorted(CHECKS.items())],
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE[i]} for i in ids if i not in CHECKS]}
json.dump(m, open(os.path.join(verif, "MANIFEST.json"), "w"), indent=1)

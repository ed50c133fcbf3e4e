#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"],
                       level_note=c["note"]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "no check registered yet")) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd="python3 -c 'import run'", checks=checks, not_applicable=na,
         notes="Every check compiles /repo's working tree itself in a temporary directory; no hooks in /repo are used.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import CHECKS, NOT_APPLICABLE
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                      technique=CHECKS[i]["technique"], level=CHECKS[i]["level"], level_note=CHECKS[i]["note"]) for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in CHECKS],
         notes="No hooks: everything the checks need of /repo is public. Repairs of genuine defects are the fix: commits in /repo, listed in known-findings.txt.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")

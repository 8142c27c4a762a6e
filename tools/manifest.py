#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from table.py and checks.py."""
import json, os
import table
from checks import CHECKS
HERE = table.HERE
NA = {}   # id -> reason, for properties this family cannot decide
def main():
    table.main()
    checks, na = [], []
    for p in table.P:
        i = p["id"]
        if i in CHECKS:
            c = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"], "level_note": c["note"] or c["rule"]})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not claimed")
main()

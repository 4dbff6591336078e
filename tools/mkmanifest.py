#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plans.py."""
import json
import os
import plans

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for ln in open(HERE + "/properties.jsonl"):
    pid = json.loads(ln)["id"]
    q = plans.plan(pid, "quick")
    fams = ", ".join("%s/%s %dx%d" % f for f in q["families"])
    exh = ("; exhaustive: " + ", ".join("configuration %s to depth %d" % e for e in q["explore"])) if q["explore"] else ""
    checks.append(dict(
        property=pid,
        quick_cmd="python3 check.py %s --tier quick" % pid,
        thorough_cmd="python3 check.py %s --tier thorough" % pid,
        evidence_file="evidence/%s.json" % pid,
        technique=plans.TECHNIQUE.get(pid, "TLA+ specification, TLC: behaviours generated from the spec (simulation and exhaustive) replayed into the "
                  "real code, recorded traces checked against the spec"),
        level="model_checking",
        level_note="quick: generated behaviours (family/soils scenarios x updates) %s%s; thorough: ten times the scenarios, exhaustive depth +1 or +2. "
                   "Conformance of the code is shown for the behaviours replayed, not proved for all." % (fams, exh)))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
               notes="No hooks in /repo. The checks build /repo's working tree and the recorder in a scratch directory under /tmp and remove it."),
          open(HERE + "/MANIFEST.json", "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "pbt", "checks", i.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "no check built yet"})
        continue
    doc = re.match(r'"""(.*?)"""', open(f).read(), re.S).group(1)
    checks.append({
        "property": i,
        "quick_cmd": "python3-vt /verif/pbt/main.py %s --tier quick" % i,
        "thorough_cmd": "python3-vt /verif/pbt/main.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "property-based testing: generated inputs against an explicit oracle, with shrinking",
        "level": "exploration",
        "level_note": " ".join(doc.split()) + " Generated-input search with a fixed seed per run (VERIF_SEED); coverage, classification and samples are in the evidence file",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 /verif/pbt/core/build.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Black-box checks of the debug binary built from /repo's working tree into /verif/.build; the code under test runs as an "
             "unprivileged user in scratch directories. No hooks in /repo. Replay a saved failure with: "
             "python3-vt /verif/pbt/main.py ID --replay FILE.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")

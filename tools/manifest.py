#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present and the notes below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = {
 "P01": "Bounded-exhaustive (every pattern up to 3 characters over the meta alphabet and longer ones over reduced alphabets, against every short address) plus random structured pairs; each real result is compared with the declarative TLA+ definition evaluated by TLC.",
}
DEFAULT_NOTE = "Conformance of the real code to the TLA+ specification on the behaviours explored (TLC-generated and random, seeded); trusts the driver's projection of the API and TLC's evaluation."
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 bin/check " + i, thorough_cmd="VERIF_TIER=thorough python3 bin/check " + i,
            evidence_file="evidence/%s.json" % i,
            technique="TLA+ specification checked with TLC; traces recorded from the real code validated against it",
            level="model_checking", level_note=NOTE.get(i, DEFAULT_NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 bin/setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")

#!/usr/bin/env python3
# Rewrites MANIFEST.json from checks.py, tools/na.json and properties.jsonl.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import PROPS
na = json.load(open(os.path.join(V, "tools", "na.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = {x["property"] for x in na}
for i in ids:
    if i not in PROPS and i not in have: na.append(dict(property=i, reason="No check has been built for it yet."))
checks = []
for p, d in PROPS.items():
    checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="python3 check.py " + p + " --thorough", technique=d.get("technique", "deterministic simulation with fault injection: seeded scheduler and fault search over the real code"),
        level=d.get("level", "exploration"), level_note=d["note"] if "note" in d else "Sampled executions of the real code under a simulated scheduler; every reported failure has been replayed exactly from its file. Finding nothing is evidence over the runs counted in the evidence file, not a proof."))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="No hooks in /repo: every seam is outside the sources (libc, libpthread, libstdc++, libgomp symbols and compiler instrumentation). Commits in /repo are repairs only (see known_findings.txt).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, filling in the tables from checks.py, properties.jsonl and seeded/*/meta.json."""
import json, os, glob, sys
V = "/verif"; sys.path.insert(0, V)
import checks
P = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); P[p["id"]] = p
NA = {x["property"]: x["reason"] for x in json.load(open(V + "/tools/na.json"))}
def scen(c):
    if c.get("node"): return "nodesim/sim.js, %d runs" % c["runs"]
    return "; ".join("%s: %s" % (g, ", ".join("%s ×%d" % (a, n) for a, n in l)) for g, l in c["quick"].items())
t = []
for i in sorted(P):
    if i in NA: continue
    c = checks.PROPS[i]
    t.append("### %s %s\n\n- **Scenarios (group: scenario × quick runs).** %s\n- **What a run draws, and the oracle.** %s\n- **Real code.** %s\n- **Stubs.** %s\n%s- **Why tests cannot.** %s\n" % (i, P[i]["title"], scen(c), c["rule"], "; ".join(c["real"]), "; ".join(c["stub"]), ("- **Assumptions.** %s\n" % "; ".join(c["assume"])) if c.get("assume") else "", P[i]["why_tests_cant"]))
na = "\n".join("- **%s %s** %s" % (i, P[i]["title"] + ".", NA[i]) for i in sorted(NA))
rows = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
C = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), C.get(i, "?").replace("|", "/")))
s = open(V + "/tools/design.md").read()
s = s.replace("@CHECKS@", "\n".join(t)).replace("@NA@", na).replace("@SEEDS@", "\n".join(rows)).replace("@NSEEDS@", str(len(rows) - 2)).replace("@NCLAIMED@", str(len(P) - len(NA))).replace("@NNA@", str(len(NA)))
open(V + "/DESIGN.md", "w").write(s)

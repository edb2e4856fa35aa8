#!/usr/bin/env python3
"""For each repaired defect of known_findings.txt: takes the repair out in a scratch copy and runs the check of its property, which must report it."""
import os, re, shutil, subprocess, sys
V = "/verif"; S = "/tmp/revscratch"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
only = sys.argv[1:]
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(C\d\d) ([0-9a-f]+) (.*)", l)
    if not m or (only and m[1] not in only and m[2] not in only): continue
    if os.path.exists(S): shutil.rmtree(S)
    shutil.copytree("/repo", S, symlinks=True)
    r = sh("git -c user.name=x -c user.email=x@x revert --no-commit %s" % m[2], cwd=S); how = "reverted"
    if r.returncode:
        sh("git revert --abort; git reset -q --hard", cwd=S); how = "files as before"
        sh("git checkout -q %s^ -- $(git diff --name-only %s^ %s)" % (m[2], m[2], m[2]), cwd=S)
    c = sh("FFIASM_REPO=%s timeout 900 python3 check.py %s" % (S, m[1]), cwd=V)
    x = [y for y in c.stdout.split("\n") if y.startswith("violation:") or "error" in y]
    print("%s %s %-15s exit=%d %s" % (m[1], m[2], how, c.returncode, " | ".join(y[:130] for y in x[:1]) or c.stdout[-150:].replace("\n", " ")), flush=True)
if os.path.exists(S): shutil.rmtree(S)

#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/ from seedlib/bugs_*.py and confirms each in a scratch copy under /tmp.
  mkseeds.py [ID...]          write and confirm (default: all)
  mkseeds.py --catch [ID...]  apply to a scratch copy and run the check of its property (and nothing else)"""
import glob, json, os, re, shutil, subprocess, sys, importlib.util
V = "/verif"; L = V + "/tools/seedlib"; S = "/tmp/seedscratch"
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo, files=(), kind="cpp", flags="", env="", extra={}):
    BUGS[id] = dict(extra=extra, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, files=files, kind=kind, flags=flags, env=env)
for f in sorted(glob.glob(L + "/bugs_*.py")):
    exec(compile(open(f).read(), f, "exec"), dict(bug=bug))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    if os.path.exists(S): shutil.rmtree(S)
    shutil.copytree("/repo", S, symlinks=True)
    for n in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + n).read().replace("/repo", S).replace("/opt/vp/build.sh", S + "-build.sh"); open(S + "-" + n, "w").write(t)
def apply(b):
    for f, old, new in b["edits"]:
        p = os.path.join(S, f); t = open(p).read()
        if t.count(old) != 1: raise SystemExit("%s: text found %d times in %s:\n%s" % (f, t.count(old), p, old))
        open(p, "w").write(t.replace(old, new))
CPP = """#!/bin/bash
# Run in the repository's root after a build: 0 if the behaviour is right, nonzero otherwise.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -g -w -U_FORTIFY_SOURCE -fopenmp -DUSE_OPENMP -include stdexcept %(flags)s -I "$D" -I c "$D/demo.cpp" %(srcs)s -o "$T/demo" -lgmp -ldl -lpthread || exit 2
cd "$T" && %(env)s timeout 120 ./demo
"""
JS = """#!/bin/bash
# Run in the repository's root after a build: 0 if the behaviour is right, nonzero otherwise.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$T"' EXIT
R=$PWD
cd "$T" && NODE_PATH="$D/shim" timeout 120 node "$D/demo.js" "$R"
"""
def write(id):
    b = BUGS[id]; d = V + "/seeded/" + id
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    scratch(); apply(b)
    p = sh("git diff", cwd=S).stdout; open(d + "/patch.diff", "w").write(p)
    if b["kind"] == "cpp":
        open(d + "/demo.sh", "w").write(CPP % dict(flags=b["flags"], env=b["env"], srcs=" ".join('c/' + f for f in b["files"])))
        open(d + "/demo.cpp", "w").write(b["demo"]); shutil.copy(L + "/demo.h", d)
        if any("binfile" in f for f in b["files"]): shutil.copy(L + "/thread_utils.hpp", d)
    elif b["kind"] == "js":
        open(d + "/demo.sh", "w").write(JS); open(d + "/demo.js", "w").write(b["demo"]); shutil.copytree(V + "/gen/shim", d + "/shim")
    else:
        open(d + "/demo.sh", "w").write(b["demo"]);
        for f, t in b["extra"].items(): open(d + "/" + f, "w").write(t)
        for f in b["files"]: (shutil.copytree if os.path.isdir(f) else shutil.copy)(f, d + "/" + os.path.basename(f))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    # confirm
    r = sh("bash %s-build.sh && bash %s-test.sh %s-o.json" % (S, S, S)); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    o = json.load(open(S + "-o.json")) if os.path.exists(S + "-o.json") else {"passed": []}
    tests = r.returncode == 0 and all(x in o["passed"] for x in st)
    bad = [sh("bash %s/demo.sh" % d, cwd=S) for _ in range(2)]
    sh("git checkout -q -- .", cwd=S); sh("bash %s-build.sh" % S)
    good = [sh("bash %s/demo.sh" % d, cwd=S) for _ in range(3)]
    ok = tests and all(x.returncode not in (0, 2) for x in bad) and all(x.returncode == 0 for x in good)
    print("%-28s %s tests=%s bad=%s good=%s %s" % (id, "ok" if ok else "NOT OK", tests, [x.returncode for x in bad], [x.returncode for x in good], (bad[0].stdout.strip().split("\n") or [""])[-1][:100]), flush=True)
    if not ok: print("   tests:", r.stdout[-300:] if not tests else "", "\n   bad:", bad[0].stdout[-600:], "\n   good:", "".join(g.stdout[-600:] for g in good if g.returncode))
def catch(id):
    scratch(); apply(BUGS[id])
    r = sh("FFIASM_REPO=%s timeout 900 python3 check.py %s" % (S, BUGS[id]["prop"]), cwd=V)
    l = [x for x in r.stdout.split("\n") if x.startswith("violation:") or "VIOLATION" in x or "error" in x or "panic" in x]
    J = V + "/tools/caught.json"; C = json.load(open(J)) if os.path.exists(J) else {}
    C[id] = "%s: %s" % (BUGS[id]["prop"], re.sub(r"^violation: ", "", l[0]).replace(S + "/", "").split(" [")[0][:110]) if r.returncode == 1 and l else "NOT CAUGHT (exit %d)" % r.returncode
    json.dump(C, open(J, "w"), indent=0, sort_keys=True)
    print("%-28s %s exit=%d %s" % (id, BUGS[id]["prop"], r.returncode, " | ".join(x[:170] for x in l[:2]) or r.stdout[-200:]), flush=True)
a = sys.argv[1:]; c = "--catch" in a; ids = [x for x in a if not x.startswith("-")] or sorted(BUGS)
ids = [i for i in sorted(BUGS) if i in ids or any(x.endswith("*") and i.startswith(x[:-1]) for x in ids)]
for i in ids: (catch if c else write)(i)
if os.path.exists(S): shutil.rmtree(S)
for n in ("-build.sh", "-test.sh", "-o.json"):
    if os.path.exists(S + n): os.remove(S + n)

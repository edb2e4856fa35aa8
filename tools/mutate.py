#!/usr/bin/env python3
"""Mutation sweep (development only): small random changes of a source file in a scratch copy, run against the checks of some properties.
  mutate.py FILE COUNT SEED DIV PROP[,PROP...]     prints what survives"""
import os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, count, seed, div, props = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5].split(",")
S = "/tmp/mut-%d" % os.getpid(); R = random.Random(seed); src = open("/repo/" + f).read(); L = src.split("\n")
OPS = [(r"<=", "<"), (r"(?<![<\-=])<(?![<=])", "<="), (r"(?<![->])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\+ ?1\b", "+ 0"), (r"- ?1\b", "- 0"), (r"\+=", "-="), (r"-=", "+="), (r"(?<![\w.])(\d+)(?![\w.])", None), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"notify_all", "notify_one"), (r"(?<!\+)\+(?![+=])", "-"), (r"(?<!-)-(?![-=>])", "+"), (r"\*(?=\w)", "+"), (r"/(?![/*])", "*"), (r"%", "/"), (r"<<", ">>"), (r">>", "<<"), (r"\.a\b", ".b"), (r"\.b\b", ".a"), (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r"(?<=\()!", "")]
sites = []; com = False
for i, l in enumerate(L):
    if "/*" in l: com = True
    c = com or l.strip().startswith(("//", "#", "*"))
    if "*/" in l: com = False
    if c or not l.strip(): continue
    code = re.sub(r"//.*", "", l); s = code.strip()
    if "template" in code or "include" in code: continue
    for a, b in OPS:
        for m in re.finditer(a, code):
            if code[:m.start()].count('"') % 2 == 1: continue
            n = b if b is not None else str(int(m[1]) + 1); sites.append((i, l[:m.start()] + n + l[m.end():]))
    if s.endswith(";") and not re.match(r"(return|break|continue|static|const|typedef|using|int|u?int\w*_t|u_int\w*|auto|bool|typename|Element|mpz_t|std::|void|extern|var|let|throw)\b", s) and not s.startswith("}"): sites.append((i, re.match(r"\s*", l)[0] + ";"))
R.shuffle(sites)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
shutil.rmtree(S, ignore_errors=True); shutil.copytree("/repo", S, symlinks=True)
k = caught = bad = 0
for i, n in sites[:count]:
    t = list(L); t[i] = n; open(S + "/" + f, "w").write("\n".join(t)); res = None; t0 = time.time()
    for p in props:
        r = sh("FFIASM_REPO=%s FFIASM_DIV=%s timeout 900 python3 %s/check.py %s" % (S, div, V, p))
        if r.returncode == 1: res = "caught by " + p; break
        if r.returncode != 0: res = ("does not build" if "build failed" in r.stdout or "rendering" in r.stdout else "NO ANSWER " + r.stdout[-200:].replace("\n", " ")); break
    k += 1
    if res is None or res.startswith("NO"): print("%s:%d %s\n   - %s\n   + %s" % (f, i + 1, res or "SURVIVED", L[i].strip(), n.strip()), flush=True)
    elif res.startswith("caught"): caught += 1
    else: bad += 1
print("%s: %d mutants, %d caught, %d do not build (%s)" % (f, k, caught, bad, ",".join(props)), flush=True)
shutil.rmtree(S, ignore_errors=True)

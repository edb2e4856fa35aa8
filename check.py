#!/usr/bin/env python3
"""Driver: build the code under test from /repo under the simulator, search seeds, minimise, replay, write evidence.

  check.py C01            run the check of one property (VERIF_SEED, VERIF_TIER)
  check.py replay FILE    re-execute a replay file (exit 1 if it fails the same way)
  check.py build GROUP    only build
"""
import concurrent.futures as cf, hashlib, json, os, subprocess, sys, time, struct, shutil, re
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FFIASM_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, V)
from checks import PROPS, GROUPS, FIELDS
NCPU = max(1, min(8, os.cpu_count() or 1))
try: CPUS = sorted(os.sched_getaffinity(0))[:8]
except Exception: CPUS = list(range(NCPU))
NCPU = len(CPUS)
ERR = 2
REN = "alloc,load,readonly,code,contents"

def log(*a): print(*a, file=sys.stderr, flush=True)
def die(msg): log("check error:", msg); sys.exit(ERR)
def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)

def tree_hash():
    h = hashlib.sha256()
    for d in (os.path.join(REPO, "c"), os.path.join(REPO, "src"), os.path.join(V, "sim"), os.path.join(V, "scn"), os.path.join(V, "gen")):
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f); h.update(p.encode())
                try: h.update(open(p, "rb").read())
                except OSError: pass
    return h.hexdigest()

class Build:
    """Parallel compile of a group's objects; an object is reused only if nothing it could depend on changed."""
    def __init__(self): self.th = tree_hash(); os.makedirs(B, exist_ok=True)
    def fresh(self, out, key):
        k = hashlib.sha256((self.th + key).encode()).hexdigest(); kf = out + ".key"
        if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == k: return True, k
        return False, k
    def fields(self):
        out = os.path.join(B, "fields"); stamp = os.path.join(out, "done")
        ok, k = self.fresh(stamp, "fields")
        if ok: return out
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        r = run(["node", os.path.join(V, "gen", "render.js"), REPO, out])
        if r.returncode: raise BuildError("rendering the field sources failed:\n" + r.stderr[-3000:])
        r = run([sys.executable, os.path.join(V, "gen", "wrap.py"), out] + FIELDS)
        if r.returncode: raise BuildError("writing the wrappers failed:\n" + r.stderr[-3000:])
        open(stamp, "w").write("ok"); open(stamp + ".key", "w").write(k)
        return out
    def job(self, j):
        out, cmds = j["out"], j["cmds"]
        ok, k = self.fresh(out, json.dumps(cmds))
        if ok: return None
        for c in cmds:
            r = run(c)
            if r.returncode: return " ".join(c) + "\n" + r.stderr[-3000:]
        open(out + ".key", "w").write(k)
        return None
    def group(self, g):
        G = GROUPS[g]; t0 = time.time(); jobs = []
        inc = ["-I" + os.path.join(V, "sim"), "-I" + os.path.join(V, "sim", "stubs"), "-I" + os.path.join(V, "scn"), "-I" + os.path.join(REPO, "c")]
        fld = None
        if G.get("fields"): fld = self.fields(); inc.append("-I" + fld)
        syms = os.path.join(V, "sim", "syms.txt")
        objs = []
        def add(name, cmds): out = os.path.join(B, name); objs.append(out); jobs.append(dict(out=out, cmds=cmds))
        for s in ("rt", "gomp", "driver"):
            o = os.path.join(B, s + ".o")
            add(s + ".o", [["g++", "-std=c++17", "-O2", "-g1", "-Wall", "-fno-stack-protector", *inc, "-c", os.path.join(V, "sim", s + ".cpp"), "-o", o],
                           ["objcopy", "--rename-section", ".text=simtext," + REN, o]])
        for n, src in G.get("plainsrc", []):
            n = g + "_" + n + ".o"; o = os.path.join(B, n)
            add(n, [["g++", "-std=c++17", "-O2", "-g1", "-w", *inc, "-c", src.replace("{FLD}", fld or "").replace("{SCN}", os.path.join(V, "scn")), "-o", o], ["objcopy", "--rename-section", ".text=simtext," + REN, o]])
        for s in G.get("plain", []):      # harness code that must not be a preemption point
            n = "p_" + s.replace("/", "_") + ".o"; o = os.path.join(B, n)
            add(n, [["g++", "-std=c++17", "-O2", "-g1", *inc, "-c", os.path.join(V, "scn", s + ".cpp"), "-o", o], ["objcopy", "--rename-section", ".text=simtext," + REN, o]])
        for e in [("canary", "{SCN}/canary.cpp", [])] + G.get("inst", []):       # code under test (instrumented): (object name, source, extra flags)
            n, src, extra = e; n = g + "_" + n + ".o"; o = os.path.join(B, n)
            src = src.replace("{REPO}", REPO).replace("{FLD}", fld or "").replace("{SCN}", os.path.join(V, "scn"))
            cmds = [["g++", "-std=c++17", "-O1", "-g1", "-w", "-fsanitize=thread", "-fopenmp", "-DUSE_OPENMP", *extra, *inc, "-c", src, "-o", o], ["objcopy", "--redefine-syms=" + syms, o]]
            if G.get("fields"): cmds.append(["objcopy", "--redefine-syms=" + os.path.join(B, "fields", "gmp_syms.txt"), o])
            if G.get("asm"): cmds.append(["objcopy", "--redefine-syms=" + os.path.join(B, "fields", "asm_syms.txt"), o])
            if G.get("initorder") and e[0] != "canary": cmds.append(["objcopy", "--rename-section", ".init_array=simia_" + e[0] + ",alloc,load,data,contents", o])     # run by the scenario, in an order of its own
            add(n, cmds)
        # source files the repository did not have when this was written (a helper moved out, say): linked where they are needed
        more = sorted(f for f in os.listdir(os.path.join(REPO, "c")) if f.endswith((".cpp", ".cc", ".c")) and f not in KNOWN_SRC and "test" not in f); lib = []
        for f in more:
            o = os.path.join(B, "%s_x_%s.o" % (g, f)); cmds = [["g++", "-x", "c" if f.endswith(".c") else "c++", *([] if f.endswith(".c") else ["-std=c++17"]), "-O1", "-g1", "-w", "-fsanitize=thread", "-fopenmp", "-DUSE_OPENMP", *(["-DUSE_ASM", "-DARCH_X86_64"] if G.get("asm") else []), *inc, "-c", os.path.join(REPO, "c", f), "-o", o], ["objcopy", "--redefine-syms=" + syms, o]]
            if G.get("fields"): cmds.append(["objcopy", "--redefine-syms=" + os.path.join(B, "fields", "gmp_syms.txt"), o])
            if G.get("asm"): cmds.append(["objcopy", "--redefine-syms=" + os.path.join(B, "fields", "asm_syms.txt"), o])
            jobs.append(dict(out=o, cmds=cmds, optional=True)); lib.append(o)
        for e in G.get("asmobj", []):
            n, src = e; n = g + "_" + n + ".o"; o = os.path.join(B, n); src = src.replace("{FLD}", fld or "")
            add(n, [["nasm", "-felf64", src, "-o", o], ["objcopy", "--rename-section", ".data=asmdata", "--rename-section", ".bss=asmbss", o]])
        with cf.ThreadPoolExecutor(NCPU) as ex: errs = [e for j, e in zip(jobs, ex.map(self.job, jobs)) if e and not (j.get("optional") and (os.path.exists(j["out"]) and os.remove(j["out"]), True))]
        if errs: raise BuildError(errs[0])
        exe = os.path.join(B, "sim_" + g)
        lib = [o for o in lib if os.path.exists(o)]; ar = os.path.join(B, g + "_x.a")
        if os.path.exists(ar): os.remove(ar)
        if lib: run(["ar", "rcs", ar, *lib]); objs.append(ar)
        r = run(["g++", "-no-pie", "-rdynamic", *objs, "-o", exe, "-lgmp", "-ldl", "-lpthread"])
        if r.returncode: raise BuildError("link: " + r.stderr[-3000:])
        log("built %s in %.1fs" % (g, time.time() - t0))
        return exe
class BuildError(Exception): pass
KNOWN_SRC = {"alt_bn128.cpp", "binfile_utils.cpp", "curve.cpp", "f12field.cpp", "f2field.cpp", "f6field.cpp", "fft.cpp", "fft_old.cpp", "misc.cpp", "msm.cpp", "multiexp.cpp", "naf.cpp", "scalar.cpp", "splitparstr.cpp", "wtns_utils.cpp", "zkey_utils.cpp"}

def symbolise(exe, *pcs):
    out = []
    for pc in pcs:
        if not pc or pc == "0": continue
        r = run(["addr2line", "-Cfe", exe, hex(int(pc, 16) - 1)])
        l = r.stdout.split("\n")
        if len(l) > 1 and not l[1].startswith("??"): out.append("%s at %s" % (l[0][:120], l[1]))
    return "; ".join(out)

def known_findings(prop):
    sigs = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: sigs.append((m.group(2), m.group(3)))
    return sigs

def sweep(exe, plan, seed, tier, known, tag, tlimit, only=""):
    outs, procs = [], []
    for i, c in enumerate(CPUS):
        o = os.path.join(B, "out.%s.%d" % (tag, i)); outs.append(o)
        for f in os.listdir(B):
            if f.startswith(os.path.basename(o)): os.remove(os.path.join(B, f))
        procs.append(subprocess.Popen([exe, "sweep", "--seed=%d" % seed, "--tier=%d" % tier, "--worker=%d" % i, "--workers=%d" % NCPU, "--cpu=%d" % c,
            "--time=%d" % int(tlimit), "--known=" + ";".join(k for k, _ in known), "--only=" + only, "--plan=" + ",".join("%s:%d" % p for p in plan), "--out=" + o],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    res = []
    for p, o in zip(procs, outs):
        so, se = p.communicate()
        if p.returncode not in (0, 1): die("simulator worker failed (%s): %s" % (p.returncode, se[-2000:]))
        if se.strip(): log("note:", se.strip()[-600:])
        res.append(json.load(open(o)))
    vios = sorted(f for f in os.listdir(B) if re.match(r"out\.%s\.\d+\.vio\d+$" % re.escape(tag), f))
    return res, [os.path.join(B, v) for v in vios]

def merge(res, hashes):
    t = dict(runs=0, steps=0, switches=0, preempts=0, simtime_ns=0, insn=0, rechecks=0, nontrivial=0, threads=0, others=0, unreproduced=0, maxthreads=0, faults={}, policies={}, per_scenario={}, known={}, samples=[], cut=False)
    for r in res:
        for k in ("runs", "steps", "switches", "preempts", "simtime_ns", "insn", "rechecks", "nontrivial", "threads", "others", "unreproduced"): t[k] += r[k]
        t["maxthreads"] = max(t["maxthreads"], r["maxthreads"]); t["cut"] |= r["cut"]
        for d in ("faults", "policies", "per_scenario", "known"):
            for k, v in r[d].items(): t[d][k] = t[d].get(k, 0) + v
        t["samples"] += r["samples"]
    full, sync, nt = set(), set(), set()
    for h in hashes:
        data = open(h, "rb").read()
        for a, b, c in struct.iter_unpack("<QQQ", data):
            full.add(a); sync.add(b)
            if c: nt.add(a)
    t["distinct"], t["distinct_sync"], t["distinct_nontrivial"] = len(full), len(sync), len(nt)
    return t

def vio_index(f):
    scn, idx = "", 0
    for l in open(f):
        if l.startswith("scenario "): scn = l.split()[1]
        if l.startswith("index "): idx = int(l.split()[1])
    return scn, idx

def handle_violation(prop, group, exe, vios):
    """Minimise the first violation, prove that its replay file reproduces it exactly, and report."""
    order = {s: i for i, (s, _) in enumerate(PROPS[prop]["quick"].get(group, []))}
    vios.sort(key=lambda f: (order.get(vio_index(f)[0], 99), vio_index(f)[1]))
    rd = os.path.join(B, "replays"); os.makedirs(rd, exist_ok=True)
    for v in vios[:3]:
        scn, idx = vio_index(v)
        out = os.path.join(rd, "%s-%s-%d.replay" % (prop, scn, idx))
        r = run([exe, "minimise", v, out, "--wall=20"])
        try: m = json.loads(r.stdout.strip().split("\n")[-1])
        except Exception: m = {"reproduced": False}
        if not m.get("reproduced"):
            log("violation of %s in %s run %d did not replay: %s" % (prop, scn, idx, r.stdout[-300:])); continue
        same = []
        for _ in range(2):
            q = run([exe, "replay", out, "--wall=20"]); same.append(json.loads(q.stdout.strip().split("\n")[-1]))
        if not all(s["same"] for s in same):      # fall back to the unminimised trace
            shutil.copy(v, out); q = run([exe, "replay", out, "--wall=20"]); j = json.loads(q.stdout.strip().split("\n")[-1])
            if not j["same"]: log("replay of %s is not exact" % out); continue
            m["class"], m["msg"], m["pc"], m["pc2"] = j["class"], j["msg"], j["pc"], j["pc2"]
        where = symbolise(exe, m.get("pc"), m.get("pc2"))
        body = open(out).read()
        open(out, "w").write(body + "property %s\ngroup %s\nwhere %s\n" % (prop, group, where or "-"))
        print("violation: %s: %s%s" % (m["class"], m["msg"], " [" + where + "]" if where else ""))
        print("  scenario %s run %d; minimised from %s to %s switches and %s to %s scheduled faults in %s runs" % (scn, idx, m.get("switches_before"), m.get("switches_after"), m.get("faults_before"), m.get("faults_after"), m.get("runs")))
        print("VIOLATION property=%s replay=%s" % (prop, out)); sys.stdout.flush()
        return True
    return False

def write_evidence(prop, tier, seed, cov, wall, viol, assumptions):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=PROPS[prop].get("level", "exploration"), coverage=cov, assumptions=assumptions, wall_s=round(wall, 2), violations=viol)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

def check(prop):
    t0 = time.time(); P = PROPS[prop]; seed = int(os.environ.get("VERIF_SEED", "1")); tier = os.environ.get("VERIF_TIER", "quick")
    if P.get("node"):
        import nodecheck
        sys.exit(nodecheck.check(prop, P, seed, tier, write_evidence, known_findings(prop), B, REPO))
    known = known_findings(prop); bld = Build(); tot = None; hashes = []; res_all = []; bw = 0; sw_wall = 0; violated = False
    for g, plan in P["quick"].items():
        tb = time.time()
        try: exe = bld.group(g)
        except BuildError as e: die("build failed: " + str(e))
        bw += time.time() - tb
        # the simulator must still be able to see: known-bad canaries have to be reported
        c = run([exe, "selftest"])
        if c.returncode: die("simulator self-test failed: " + c.stdout[-500:] + c.stderr[-500:])
        mult = 1 if tier == "quick" else P.get("thorough_mult", 25)
        plan = [(s, max(1, n * mult // int(os.environ.get("FFIASM_DIV", "1")))) for s, n in plan]      # (FFIASM_DIV: for development)
        ts = time.time()
        res, vios = sweep(exe, plan, seed, 0 if tier == "quick" else 1, known, prop + g, max(60, 620 - (time.time() - t0)) if tier == "quick" else 6 * 3600, P.get("only", ""))
        sw_wall += time.time() - ts
        res_all += res; hashes += [os.path.join(B, "out.%s%s.%d.hash" % (prop, g, i)) for i in range(NCPU)]
        if vios:
            violated = handle_violation(prop, g, exe, vios)
            if not violated: die("a violation was seen but could not be reproduced")
            break
    t = merge(res_all, hashes)
    for s, desc in known:
        if t["known"].get(s): print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    cov = dict(evaluations=t["runs"], distinct_nontrivial=t["distinct_nontrivial"],
        rule=P["rule"] + " A run is non-trivial if it had a preemption, an injected fault or more than two context switches; runs are distinct if workload parameters or the exact sequence of (thread, per-thread step) context switches and outcomes differ.",
        samples=t["samples"][:6], simulated_runs=t["runs"], seeds_per_hour=int(t["runs"] / max(sw_wall, 1e-3) * 3600), simulated_seconds=round(t["simtime_ns"] * 1e-9, 3), scheduling_steps=t["steps"], machine_instructions_stepped=t["insn"],
        context_switches=t["switches"], preemptions=t["preempts"], faults_injected=t["faults"], schedulers=t["policies"], runs_per_scenario=t["per_scenario"],
        distinct_executions=t["distinct"], distinct_synchronisation_orders=t["distinct_sync"], max_simulated_threads=t["maxthreads"], determinism_rechecks=t["rechecks"], known_findings_hit=t["known"], runs_ended_by_violations_of_other_properties=t["others"], not_reproduced_and_dismissed=t["unreproduced"],
        real_components=P["real"], stub_components=P["stub"], build_s=round(bw, 1), search_s=round(sw_wall, 1), cut_short=t["cut"])
    write_evidence(prop, tier, seed, cov, time.time() - t0, 1 if violated else 0, P.get("assume", []))
    log("%s: %d runs, %d distinct non-trivial, %.1fs (build %.1fs, search %.1fs)%s" % (prop, t["runs"], t["distinct_nontrivial"], time.time() - t0, bw, sw_wall, " VIOLATED" if violated else ""))
    sys.exit(1 if violated else 0)

def replay(f):
    if open(f).readline().startswith("{"):
        import nodecheck
        sys.exit(nodecheck.replay(f, B, REPO))
    g = prop = None
    for l in open(f):
        if l.startswith("group "): g = l.split()[1]
        if l.startswith("property "): prop = l.split()[1]
    exe = Build().group(g); r = run([exe, "replay", f]); print(r.stdout.strip())
    if r.returncode == 1: print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(f)))
    sys.exit(r.returncode)

if __name__ == "__main__":
    if len(sys.argv) < 2: print(__doc__); sys.exit(2)
    if sys.argv[1] == "replay": replay(sys.argv[2])
    elif sys.argv[1] == "build":
        try: print(Build().group(sys.argv[2]))
        except BuildError as e: die(str(e))
    elif sys.argv[1] == "try":    # try GROUP scenario:runs ... : search without evidence, for development
        g = sys.argv[2]; bld = Build()
        try: exe = bld.group(g)
        except BuildError as e: die(str(e))
        for a in sys.argv[3:]:
            s, n = a.split(":"); t0 = time.time(); PROPS["try"] = dict(quick={g: [(s, int(n))]})
            res, vios = sweep(exe, [(s, int(n))], int(os.environ.get("VERIF_SEED", "1")), int(os.environ.get("TIER", "0")), [], "try" + g, 600)
            t = merge(res, [os.path.join(B, "out.try%s.%d.hash" % (g, i)) for i in range(NCPU)])
            print("%s: %d runs %.1fs, %d steps/run, distinct %d nontrivial %d faults %s pol %s" % (s, t["runs"], time.time() - t0, t["steps"] // max(1, t["runs"]), t["distinct"], t["distinct_nontrivial"], t["faults"], t["policies"]))
            if vios: handle_violation("try", g, exe, vios)
    else:
        if "--thorough" in sys.argv: os.environ["VERIF_TIER"] = "thorough"
        check(sys.argv[1])

"""Driver of the generator simulation (nodesim/sim.js)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__)); SIM = os.path.join(V, "nodesim", "sim.js")
def log(*a): print(*a, file=sys.stderr, flush=True)
def run(cmd): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

def check(prop, P, seed, tier, write_evidence, known, B, REPO):
    t0 = time.time(); os.makedirs(B, exist_ok=True); W = max(1, min(8, len(os.sched_getaffinity(0)))); runs = P["runs"] * (1 if tier == "quick" else P.get("thorough_mult", 25)) // int(os.environ.get("FFIASM_DIV", "1"))
    outs = [os.path.join(B, "node.%s.%d" % (prop, w)) for w in range(W)]
    for o in outs:
        if os.path.exists(o): os.remove(o)
    procs = [subprocess.Popen(["node", SIM, "sweep", REPO, prop, str(seed), str(runs), str(w), str(W), str(500 if tier == "quick" else 6 * 3600), outs[w]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for w in range(W)]
    res = []
    for p, o in zip(procs, outs):
        so, se = p.communicate()
        if p.returncode not in (0, 1): log("check error: simulator worker failed (%s): %s" % (p.returncode, se[-1500:])); return 2
        res.append(json.load(open(o)))
    wall = time.time() - t0
    violated = False
    vios = sorted((r["violation"] for r in res if r["violation"]), key=lambda v: v["spec"]["index"])
    os.makedirs(os.path.join(B, "replays"), exist_ok=True)
    for v in vios[:3]:
        raw = os.path.join(B, "node.%s.vio" % prop); out = os.path.join(B, "replays", "%s-%d.replay" % (prop, v["spec"]["index"])); json.dump(v, open(raw, "w"))
        m = json.loads(run(["node", SIM, "minimise", REPO, raw, out]).stdout.strip().split("\n")[-1] or "{}")
        if not m.get("reproduced"): log("violation in run %d did not replay" % v["spec"]["index"]); continue
        if any(run(["node", SIM, "replay", REPO, out]).returncode != 1 for _ in range(2)): log("replay of %s is not exact" % out); continue
        print("violation: %s: %s" % (m["v"]["cls"], m["v"]["msg"]))
        print("  run %d; minimised from %d to %d reordered events and %d to %d faults in %d runs" % (v["spec"]["index"], m["before"], m["after"], m["fb"], m["fa"], m["runs"]))
        print("VIOLATION property=%s replay=%s" % (prop, out)); sys.stdout.flush(); violated = True; break
    if vios and not violated: log("check error: a violation was seen but could not be reproduced"); return 2
    def add(k): return sum(r[k] for r in res)
    def mrg(k):
        d = {}
        for r in res:
            for a, b in r[k].items(): d[a] = d.get(a, 0) + b
        return d
    hs = [h for r in res for h in r["hashes"]]
    cov = dict(evaluations=add("runs"), distinct_nontrivial=len({h[0] for h in hs if h[1]}), rule=P["rule"] + " A run is non-trivial if events were delivered out of order, a fault was injected or several requests ran at once; runs are distinct if the requests, faults or the sequence of events and outcomes differ.",
        samples=[s for r in res for s in r["samples"]][:6], simulated_runs=add("runs"), seeds_per_hour=int(add("runs") / max(wall, 1e-3) * 3600), simulated_seconds=round(add("virtual_ms") / 1000, 3), events=add("steps"), reordered_events=add("nonfifo"), generated_fields=add("reqs"), template_reads=add("reads"),
        faults_injected=mrg("faults"), schedulers=mrg("policies"), distinct_event_orders=len({h[2] for h in hs}), determinism_rechecks=add("rechecks"), real_components=P["real"], stub_components=P["stub"], search_s=round(wall, 1), cut_short=any(r["cut"] for r in res))
    write_evidence(prop, tier, seed, cov, time.time() - t0, 1 if violated else 0, P.get("assume", []))
    log("%s: %d runs, %d distinct non-trivial, %.1fs%s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, " VIOLATED" if violated else ""))
    return 1 if violated else 0

def replay(f, B, REPO):
    r = run(["node", SIM, "replay", REPO, f]); print(r.stdout.strip()); log(r.stderr[-500:])
    if r.returncode == 1: print("VIOLATION property=%s replay=%s" % (json.load(open(f))["property"], os.path.abspath(f)))
    return r.returncode

// Parent process: forks one child per simulated run, collects results, minimises and replays.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt_int.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <sched.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace sim;
typedef std::string str;

static const char *fname(int f) { static const char *n[] = {"spurious_wakeup", "notify_any_waiter", "thread_create_failure", "allocation_failure", "smaller_openmp_team", "share_throws", "open_failure", "fstat_failure", "mmap_failure", "read_failure",
    "torn_or_truncated_file", "bit_flips", "zeroed_page", "hostile_length_field", "source_mutated_after_open", "clock_jump", "thread_stalled", "missing_part", "stale_memory_noise", "destination_is_operand", "initialisation_order"}; return n[f]; }
static const char *pname(int p) { static const char *n[] = {"walk", "pct", "sync-only", "starve", "burst", "round-robin", "serial"}; return n[p]; }
static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static double wall_limit = 60;
struct Rec { str scenario; u64 seed = 0; u64 base = 0; i64 index = 0; Params p; std::vector<Sw> sw; std::vector<Fe> fe; u64 fair_at = ~0ull; str cls, msg; uintptr_t pc = 0, pc2 = 0; u64 hash = 0; int pol = 0, gap = 0; };

static Scenario *find(const str &n) { for (Scenario *s = scenarios; s; s = s->nxt) if (n == s->name) return s; fprintf(stderr, "no scenario %s\n", n.c_str()); exit(2); }

static void drop_scratch() {    // what a run that ended early left behind
    for (const char *base : {"/dev/shm", "/tmp"}) { char d[64], f[80]; snprintf(d, sizeof d, "%s/ffisim-%010d", base, (int)getpid()); for (const char *n : {"/f", "/f2"}) { snprintf(f, sizeof f, "%s%s", d, n); unlink(f); rmdir(f); } rmdir(d); }
}
static str hang_info, stat_at_kill;
static str proc_state(pid_t c) { char f[64], b[400]; str o; snprintf(f, sizeof f, "/proc/%d/stat", (int)c); FILE *h = fopen(f, "r"); if (!h) return "?"; size_t n = fread(b, 1, sizeof b - 1, h); b[n] = 0; fclose(h); return b; }
// returns by filling *R
static void run_once(Scenario *s, const Params &p, u64 seed, const Rec *tr) {
    memset((void *)R, 0, offsetof(Result, sw)); R->fair_at = ~0ull;
    static std::vector<Sw> ev; static std::vector<Fe> fe; static Trace t;
    if (tr) {
        ev = tr->sw; fe = tr->fe;
        std::stable_sort(ev.begin(), ev.end(), [](const Sw &a, const Sw &b) { return a.tid != b.tid ? a.tid < b.tid : a.step < b.step; });
        t.sw = ev.data(); t.nsw = (int)ev.size(); int k = 0;
        for (int i = 0; i <= MAXT; i++) { while (k < (int)ev.size() && (int)ev[k].tid < i) k++; t.beg[i] = k; }
        t.beg[MAXT] = (int)ev.size();
        t.fe = fe.data(); t.nfe = (int)fe.size(); t.fair_at = tr->fair_at;
    }
    static Params pp; pp = p;
    static bool dirty = false; if (dirty) drop_scratch();      // the previous run ended early and may have left files
    fflush(stdout);
    pid_t c = fork();
    if (c < 0) { perror("fork"); exit(2); }
    if (c == 0) {
        int fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY); if (!getenv("SIM_STDERR")) { dup2(fd, 2); } dup2(fd, 1);
        G.trace = getenv("SIM_TRACE") != nullptr;
        child_run(s, &pp, seed, tr ? &t : nullptr);
    }
    int st; double t0 = now(); bool killed = false;
    // children finish by themselves; the wall limit only catches code that never reaches a preemption point
    for (int spin = 0;; spin++) {
        struct timespec ts = {0, 0}; (void)ts;
        siginfo_t si; si.si_pid = 0;
        sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
        pid_t r = waitpid(c, &st, WNOHANG);
        if (r == c) break;
        struct timespec w = {2, 0}; syscall(SYS_rt_sigtimedwait, &ss, &si, &w, 8);
        if (now() - t0 > wall_limit) { if (waitpid(c, &st, WNOHANG) == c) break; stat_at_kill = proc_state(c); kill(c, SIGKILL); waitpid(c, &st, 0); killed = true; break; }
    }
    if (killed) { hang_info = str("steps ") + std::to_string(R->steps) + ", instructions " + std::to_string(R->insn_steps) + ", done " + std::to_string(R->done) + ", " + stat_at_kill; R->status = 2; strcpy(R->cls, "hang"); snprintf(R->msg, sizeof R->msg, "the run did not end within %.0f s", wall_limit); R->hash = 0; R->done = 1; }
    else if (!R->done) {
        if (WIFSIGNALED(st)) { R->status = 2; strcpy(R->cls, "crash"); snprintf(R->msg, sizeof R->msg, "the run was ended by signal %d", WTERMSIG(st)); R->hash = WTERMSIG(st); }
        else { int x = WEXITSTATUS(st);
            if (x >= 97 && x <= 99) { R->status = 3; snprintf(R->msg, sizeof R->msg, "simulator error, exit %d", x); }
            else { R->status = 2; strcpy(R->cls, "exit"); snprintf(R->msg, sizeof R->msg, "the process exited with status %d in the middle of the run", x); R->hash = x; } }
    }
    dirty = R->status != 1;
}
static Rec take(const str &scn, u64 base, i64 idx, u64 seed, const Params &p) {
    Rec r; r.scenario = scn; r.base = base; r.index = idx; r.seed = seed; r.p = p; r.sw.assign(R->sw, R->sw + R->nsw); r.fe.assign(R->fe, R->fe + R->nfe);
    r.fair_at = R->fair_at; r.cls = R->cls; r.msg = R->msg; r.pc = R->pc; r.pc2 = R->pc2; r.hash = R->hash; r.pol = R->pol; r.gap = R->gap; return r;
}
static void save(const Rec &r, const char *file) {
    FILE *f = fopen(file, "w"); if (!f) { perror(file); exit(2); }
    fprintf(f, "ffiasm-sim-replay 1\nscenario %s\nbase_seed %llu\nindex %lld\nrun_seed %llu\npolicy %s gap %d\n", r.scenario.c_str(), (unsigned long long)r.base, (long long)r.index, (unsigned long long)r.seed, pname(r.pol), r.gap);
    for (int i = 0; i < r.p.n; i++) fprintf(f, "param %s %lld %lld\n", r.p.e[i].k, (long long)r.p.e[i].v, (long long)r.p.e[i].lo);
    fprintf(f, "fair_at %llu\n", (unsigned long long)r.fair_at);
    for (auto &e : r.fe) fprintf(f, "fault %s %u %u %u\n", fname(e.kind), e.kind, e.occ, e.val);
    for (auto &s : r.sw) fprintf(f, "switch %u %llu %u\n", s.tid, (unsigned long long)s.step, s.target);
    fprintf(f, "expect_class %s\nexpect_hash %llu\nexpect_pc %lx %lx\nexpect_msg %s\n", r.cls.c_str(), (unsigned long long)r.hash, (unsigned long)r.pc, (unsigned long)r.pc2, r.msg.c_str());
    fclose(f);
}
static Rec load(const char *file) {
    Rec r; FILE *f = fopen(file, "r"); if (!f) { perror(file); exit(2); }
    static char ln[4096];
    while (fgets(ln, sizeof ln, f)) {
        size_t L = strlen(ln); while (L && (ln[L - 1] == '\n')) ln[--L] = 0;
        char a[64], b[64]; long long x, y; unsigned u, v, w; unsigned long long z;
        if (sscanf(ln, "scenario %63s", a) == 1) r.scenario = a;
        else if (sscanf(ln, "base_seed %llu", &z) == 1) r.base = z;
        else if (sscanf(ln, "index %lld", &x) == 1) r.index = x;
        else if (sscanf(ln, "run_seed %llu", &z) == 1) r.seed = z;
        else if (sscanf(ln, "param %63s %lld %lld", a, &x, &y) == 3) r.p.set(a, x, y);
        else if (sscanf(ln, "fair_at %llu", &z) == 1) r.fair_at = z;
        else if (sscanf(ln, "fault %63s %u %u %u", b, &u, &v, &w) == 4) r.fe.push_back({u, v, w});
        else if (sscanf(ln, "switch %u %llu %u", &u, &z, &v) == 3) r.sw.push_back({u, v, z});
        else if (!strncmp(ln, "expect_class ", 13)) r.cls = ln + 13;
        else if (sscanf(ln, "expect_hash %llu", &z) == 1) r.hash = z;
        else if (!strncmp(ln, "expect_msg ", 11)) r.msg = ln + 11;
    }
    fclose(f); return r;
}
static str jesc(const str &s) { str o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

static int nmin; static double min_t0; static int min_budget = 1500;
static bool still(Scenario *s, Rec &cand) {   // does the candidate still fail the same way? If so, adopt what actually happened.
    if (nmin >= min_budget || now() - min_t0 > 90) return false;
    nmin++;
    run_once(s, cand.p, cand.seed, &cand);
    if (R->status == 2 && cand.cls == R->cls) { Rec n = take(cand.scenario, cand.base, cand.index, cand.seed, cand.p); n.pol = cand.pol; n.gap = cand.gap; cand = n; return true; }
    return false;
}
template <class T> static void ddmin(Scenario *s, Rec &best, std::vector<T> Rec::*field) {
    size_t chunk = (best.*field).size();
    { Rec c = best; (c.*field).clear(); if (!(best.*field).empty() && still(s, c)) best = c; chunk = ((best.*field).size() + 1) / 2; }
    while (chunk >= 1 && !(best.*field).empty()) {
        bool any = false;
        for (size_t i = 0; i < (best.*field).size();) {
            Rec c = best; auto &v = c.*field; size_t e = std::min(v.size(), i + chunk);
            v.erase(v.begin() + i, v.begin() + e);
            size_t before = (best.*field).size();
            if (still(s, c) && (c.*field).size() < before) { best = c; any = true; } else i += chunk;
            if (nmin >= min_budget) return;
        }
        if (chunk == 1 && !any) break;
        if (!any) chunk = chunk == 1 ? 0 : (chunk + 1) / 2; else if (chunk > (best.*field).size()) chunk = ((best.*field).size() + 1) / 2;
        if (chunk == 0) break;
    }
}
static void shrink_params(Scenario *s, Rec &best) {
    for (int pass = 0; pass < 2; pass++)
        for (int i = 0; i < best.p.n; i++) {
            i64 lo = best.p.e[i].lo; if (lo == INT64_MIN) continue;
            if (best.p.e[i].v == lo) continue;
            { Rec c = best; c.p.e[i].v = lo; if (still(s, c)) { best = c; continue; } }
            i64 bad = lo; // bad = known not failing
            while (true) { i64 cur = best.p.e[i].v; i64 mid = bad + (cur - bad) / 2; if (mid == bad || mid == cur) break; Rec c = best; c.p.e[i].v = mid; if (still(s, c)) best = c; else bad = mid; if (nmin >= min_budget) return; }
        }
}

int main(int argc, char **argv) {
    init_syms();
    { static pid_t me = getpid(); atexit([] { if (getpid() == me) drop_scratch(); }); }
    R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    { sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, 0); }
    std::map<str, str> o; str cmd = argc > 1 ? argv[1] : "list";
    std::vector<str> pos;
    for (int i = 2; i < argc; i++) { str a = argv[i]; if (a.substr(0, 2) == "--") { size_t q = a.find('='); o[a.substr(2, q - 2)] = q == str::npos ? "1" : a.substr(q + 1); } else pos.push_back(a); }
    if (o.count("cpu")) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(atoi(o["cpu"].c_str()), &cs); sched_setaffinity(0, sizeof cs, &cs); }
    if (o.count("wall")) wall_limit = atof(o["wall"].c_str());
    if (cmd == "list") { for (Scenario *s = scenarios; s; s = s->nxt) printf("%s\n", s->name); return 0; }
    if (cmd == "replay") {
        Rec r = load(pos[0].c_str()); Scenario *s = find(r.scenario);
        run_once(s, r.p, r.seed, &r);
        bool same = R->status == 2 && r.cls == R->cls && R->hash == r.hash;
        printf("{\"status\":%d,\"class\":\"%s\",\"msg\":\"%s\",\"hash\":%llu,\"expected_hash\":%llu,\"same\":%s,\"pc\":\"%lx\",\"pc2\":\"%lx\",\"steps\":%llu,\"switches\":%llu}\n", R->status, R->cls, jesc(R->msg).c_str(), (unsigned long long)R->hash, (unsigned long long)r.hash, same ? "true" : "false", (unsigned long)R->pc, (unsigned long)R->pc2, (unsigned long long)R->steps, (unsigned long long)R->switches);
        return same ? 1 : R->status == 2 ? 1 : 0;
    }
    if (cmd == "minimise") {
        Rec r = load(pos[0].c_str()); Scenario *s = find(r.scenario); min_t0 = now();
        if (o.count("budget")) min_budget = atoi(o["budget"].c_str());
        size_t sw0 = r.sw.size(), fe0 = r.fe.size();
        // gate: the recorded trace reproduces the failure
        run_once(s, r.p, r.seed, &r);
        bool rep = R->status == 2 && r.cls == R->cls; bool exact = rep && R->hash == r.hash;
        if (!rep) { run_once(s, r.p, r.seed, nullptr); bool again = R->status == 2 && r.cls == R->cls; printf("{\"reproduced\":false,\"seed_reproduces\":%s}\n", again ? "true" : "false"); return 3; }
        Rec best = r;
        shrink_params(s, best); ddmin(s, best, &Rec::fe); ddmin(s, best, &Rec::sw); shrink_params(s, best); ddmin(s, best, &Rec::fe);
        run_once(s, best.p, best.seed, &best); bool ok = R->status == 2 && best.cls == R->cls;
        if (ok) { int pol = best.pol, gap = best.gap; best = take(best.scenario, best.base, best.index, best.seed, best.p); best.pol = r.pol; best.gap = r.gap; (void)pol; (void)gap; } else best = r;
        save(best, pos[1].c_str());
        printf("{\"reproduced\":true,\"exact\":%s,\"runs\":%d,\"switches_before\":%zu,\"switches_after\":%zu,\"faults_before\":%zu,\"faults_after\":%zu,\"class\":\"%s\",\"msg\":\"%s\",\"pc\":\"%lx\",\"pc2\":\"%lx\"}\n", exact ? "true" : "false", nmin, sw0, best.sw.size(), fe0, best.fe.size(), best.cls.c_str(), jesc(best.msg).c_str(), (unsigned long)best.pc, (unsigned long)best.pc2);
        return 0;
    }
    if (cmd == "one") { // one --scn= --seed= : a single run by seed, for debugging
        Scenario *s = find(o["scn"]); u64 seed = strtoull(o["seed"].c_str(), 0, 10); Rng g(mix(seed, 1)); Params p; s->gen(g, p, atoi(o["tier"].c_str()));
        for (auto &kv : o) if (kv.first.substr(0, 2) == "p:") p.set(kv.first.c_str() + 2, atoll(kv.second.c_str()));
        run_once(s, p, seed, nullptr);
        for (int i = 0; i < p.n; i++) printf("%s=%lld ", p.e[i].k, (long long)p.e[i].v);
        printf("\nstatus=%d cls=%s msg=%s steps=%llu switches=%llu preempts=%llu threads=%d hash=%llx pol=%s gap=%d insn=%llu pc=%lx\n", R->status, R->cls, R->msg, (unsigned long long)R->steps, (unsigned long long)R->switches, (unsigned long long)R->preempts, R->nthreads, (unsigned long long)R->hash, pname(R->pol), R->gap, (unsigned long long)R->insn_steps, (unsigned long)R->pc);
        return 0;
    }
    if (cmd == "selftest") {   // every known-bad canary must be reported within 600 seeds, and its trace must reproduce it
        int n = 0; double t0 = now();
        for (Scenario *s = scenarios; s; s = s->nxt) { if (strncmp(s->name, "canary_", 7)) continue;
            str want = str(s->name + 7); want = want.substr(0, want.find('_')); bool ok = false; n++;
            for (int i = 0; i < 600 && !ok; i++) { u64 seed = mix(77, i); Rng g(mix(seed, 1)); Params p; s->gen(g, p, 0); run_once(s, p, seed, nullptr);
                if (R->status == 3) { printf("canary %s: simulator error\n", s->name); return 1; }
                if (R->status == 2) { if (want != R->cls) { printf("canary %s was reported as %s: %s\n", s->name, R->cls, R->msg); return 1; }
                    Rec r = take(s->name, 77, i, seed, p); run_once(s, p, seed, &r); if (R->status != 2 || R->hash != r.hash) { printf("canary %s did not replay\n", s->name); return 1; } ok = true; } }
            if (!ok) { printf("canary %s was not found\n", s->name); return 1; } }
        printf("%d canaries found in %.2f s\n", n, now() - t0); return n ? 0 : 1;
    }
    if (cmd == "sweep") {
        u64 base = strtoull(o["seed"].c_str(), 0, 10); int tier = atoi(o["tier"].c_str()); int w = atoi(o["worker"].c_str()), W = std::max(1, atoi(o["workers"].c_str()));
        double tlimit = o.count("time") ? atof(o["time"].c_str()) : 1e18;
        std::set<str> known; { str k = o["known"]; size_t a = 0; while (a < k.size()) { size_t b = k.find(';', a); if (b == str::npos) b = k.size(); known.insert(k.substr(a, b - a)); a = b + 1; } }
        std::set<str> only; { str k = o["only"]; size_t a = 0; while (a < k.size()) { size_t b = k.find(',', a); if (b == str::npos) b = k.size(); only.insert(k.substr(a, b - a)); a = b + 1; } }     // kinds of violation this property is about (empty: all)
        u64 others = 0; int unrep = 0;
        struct Item { str scn; i64 n; }; std::vector<Item> plan; { str k = o["plan"]; size_t a = 0; while (a < k.size()) { size_t b = k.find(',', a); if (b == str::npos) b = k.size(); str it = k.substr(a, b - a); size_t c = it.find(':'); plan.push_back({it.substr(0, c), atoll(it.c_str() + c + 1)}); a = b + 1; } }
        double t0 = now();
        FILE *f = fopen(o["out"].c_str(), "w"); if (!f) { perror("out"); return 2; }
        FILE *hf = fopen((o["out"] + ".hash").c_str(), "wb");
        u64 runs = 0, steps = 0, sws = 0, pre = 0, simt = 0, insn = 0, faults[F_NKIND] = {0}, rechecks = 0, nontriv = 0, created = 0; u64 pols[P_NPOL] = {0}; int maxthr = 0;
        std::vector<str> samples; int nv = 0; bool stop = false, cut = false; std::map<str, u64> per; double slow = 0; str slowdesc;
        std::map<str, u64> knownhits;
        for (auto &it : plan) {
            Scenario *s = find(it.scn);
            u64 sh = 1469598103934665603ull; for (char c : it.scn) sh = (sh ^ (u8)c) * 1099511628211ull;
            for (i64 i = w; i < it.n && !stop; i += W) {
                if (now() - t0 > tlimit) { cut = true; break; }
                u64 seed = mix(mix(base, sh), (u64)i);
                Rng g(mix(seed, 1)); Params p; s->gen(g, p, tier);
                double r0 = now();
                run_once(s, p, seed, nullptr);
                double dt = now() - r0; if (dt > slow) { slow = dt; slowdesc = it.scn + "#" + std::to_string(i); }
                runs++; per[it.scn]++; steps += R->steps; sws += R->switches; pre += R->preempts; simt += R->simtime > 1000000000ull ? R->simtime - 1000000000ull + R->steps : R->steps; insn += R->insn_steps; created += R->nthreads; maxthr = std::max(maxthr, R->nthreads); pols[R->pol]++;
                bool fl = false; for (int k = 0; k < F_NKIND; k++) { faults[k] += R->faults[k]; fl |= R->faults[k] > 0; }
                u64 ph = sh; for (int k = 0; k < p.n; k++) ph = mix(ph, p.e[k].v);
                bool nt = R->preempts > 0 || fl || R->switches > 2;
                u64 hrec[3] = {mix(R->hash, ph), mix(R->sync_hash, sh), nt}; fwrite(hrec, 8, 3, hf); nontriv += nt;
                if (R->status == 3) { fprintf(stderr, "%s run %lld: %s\n", it.scn.c_str(), (long long)i, R->msg); return 2; }
                if (R->status == 2) {
                    str sig = it.scn + "/" + R->cls;
                    if (known.count(sig)) { knownhits[sig]++; continue; }
                    if (!only.empty() && !only.count(R->cls)) { others++; continue; }
                    Rec r = take(it.scn, base, i, seed, p); str hi = hang_info;
                    // only what the same seed shows again is a violation (a run can be stalled from outside)
                    run_once(s, p, seed, nullptr);
                    if (R->status != 2 || r.cls != R->cls) { fprintf(stderr, "%s run %lld: %s (%s) did not happen again; %s\n", it.scn.c_str(), (long long)i, r.cls.c_str(), r.msg.c_str(), r.cls == "hang" ? hi.c_str() : ""); if (++unrep > 8) return 2; continue; }
                    str vf = o["out"] + ".vio" + std::to_string(nv); save(r, vf.c_str()); nv++; stop = true; break;
                }
                if (samples.size() < 2 && i % (W * 7) == w) { char b[1500]; int q = snprintf(b, sizeof b, "{\"scenario\":\"%s\",\"index\":%lld,\"policy\":\"%s\",\"threads\":%d,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"params\":{", it.scn.c_str(), (long long)i, pname(R->pol), R->nthreads, (unsigned long long)R->steps, (unsigned long long)R->switches, (unsigned long long)R->preempts);
                    for (int k = 0; k < p.n && q < 1300; k++) q += snprintf(b + q, sizeof b - q, "%s\"%s\":%lld", k ? "," : "", p.e[k].k, (long long)p.e[k].v);
                    snprintf(b + q, sizeof b - q, "}}"); samples.push_back(b); }
                if ((i / W) % 64 == 0) { // same seed twice -> same execution
                    u64 h = R->hash, st = R->steps; rechecks++;
                    run_once(s, p, seed, nullptr); if (R->status == 2 && !strcmp(R->cls, "hang")) run_once(s, p, seed, nullptr);
                    if (R->hash != h || R->steps != st) { fprintf(stderr, "simulator not deterministic: %s run %lld seed %llu: %llx/%llu vs %llx/%llu status %d %s\n", it.scn.c_str(), (long long)i, (unsigned long long)seed, (unsigned long long)h, (unsigned long long)st, (unsigned long long)R->hash, (unsigned long long)R->steps, R->status, R->msg); return 2; }
                }
            }
            if (stop || cut) break;
        }
        fprintf(f, "{\"runs\":%llu,\"wall\":%.3f,\"steps\":%llu,\"switches\":%llu,\"preempts\":%llu,\"simtime_ns\":%llu,\"insn\":%llu,\"rechecks\":%llu,\"nontrivial\":%llu,\"maxthreads\":%d,\"threads\":%llu,\"others\":%llu,\"unreproduced\":%d,\"violations\":%d,\"cut\":%s,\"slowest\":\"%s %.2fs\",", (unsigned long long)runs, now() - t0, (unsigned long long)steps, (unsigned long long)sws, (unsigned long long)pre, (unsigned long long)simt, (unsigned long long)insn, (unsigned long long)rechecks, (unsigned long long)nontriv, maxthr, (unsigned long long)created, (unsigned long long)others, unrep, nv, cut ? "true" : "false", slowdesc.c_str(), slow);
        fprintf(f, "\"faults\":{"); for (int k = 0, c = 0; k < F_NKIND; k++) if (faults[k]) fprintf(f, "%s\"%s\":%llu", c++ ? "," : "", fname(k), (unsigned long long)faults[k]);
        fprintf(f, "},\"policies\":{"); for (int k = 0, c = 0; k < P_NPOL; k++) if (pols[k]) fprintf(f, "%s\"%s\":%llu", c++ ? "," : "", pname(k), (unsigned long long)pols[k]);
        fprintf(f, "},\"per_scenario\":{"); { int c = 0; for (auto &kv : per) fprintf(f, "%s\"%s\":%llu", c++ ? "," : "", kv.first.c_str(), (unsigned long long)kv.second); }
        fprintf(f, "},\"known\":{"); { int c = 0; for (auto &kv : knownhits) fprintf(f, "%s\"%s\":%llu", c++ ? "," : "", kv.first.c_str(), (unsigned long long)kv.second); }
        fprintf(f, "},\"samples\":["); for (size_t k = 0; k < samples.size(); k++) fprintf(f, "%s%s", k ? "," : "", samples[k].c_str());
        fprintf(f, "]}\n"); fclose(f); fclose(hf);
        return nv ? 1 : 0;
    }
    fprintf(stderr, "unknown command\n"); return 2;
}

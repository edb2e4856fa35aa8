// Deterministic simulator runtime: scheduler, libc/libpthread/libstdc++ seams, race detector, heap checker.
// This file is compiled WITHOUT instrumentation and its .text is moved to section "simtext".
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt_int.h"
#include <pthread.h>
#include <semaphore.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <ucontext.h>
#include <new>
#include <bits/functexcept.h>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
extern "C" {
extern char __data_start, _end, __executable_start, etext;
extern char __start_simtext[], __stop_simtext[];
}

namespace sim {
typedef uintptr_t uptr;

// ---------------------------------------------------------------- raw system calls (never touch errno)
static inline long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void die(const char *m) { (void)!write(2, m, strlen(m)); (void)!write(2, "\n", 1); rsys(SYS_exit_group, 99); __builtin_unreachable(); }

u64 mix(u64 a, u64 b) { u64 z = (a ^ (b * 0x9E3779B97F4A7C15ULL)) + 0x632BE59BD9B4E019ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }

// ---------------------------------------------------------------- address space
static const uptr ARENA = 0x100000000000, ARENA_SZ = 0x80000000;          // 2 GiB heap, never reused
static const uptr ARENA_RUN = ARENA + 0x8000000;                           // where runs start allocating
static const uptr LSH = 0x110000000000;                                    // liveness shadow, 1 byte / 8
static const uptr STK = 0x120000000000, STK_SZ = 0x80000;                  // thread stacks
static const uptr RSH = 0x130000000000;                                    // race shadow, 32 bytes / 8
static const uptr RAW = 0x140000000000, RAW_SZ = 0x40000000;
static const uptr RSH_STK_OFF = ARENA_SZ * 4, RSH_GLB_OFF = RSH_STK_OFF + MAXT * STK_SZ * 4, GLB_MAX = 0x8000000;
static const uptr RSH_SZ = RSH_GLB_OFF + GLB_MAX * 4;

Globals G;
Result *R;       // shared with the parent
static bool inited;
static uptr bump = ARENA, rawbump = RAW;
static uptr glb_lo, glb_hi;

struct Hdr { u64 size; u64 seq; u32 magic; u32 flags; u64 pad; };   // 32 bytes
enum { HM_LIVE = 0x51AB1E, HM_FREE = 0xDEADBEE, HF_HARNESS = 1, HF_EXC = 2, HF_NEW = 4, HF_NEWA = 8 };

static void map_at(uptr a, uptr n) {
    long r = rsys(SYS_mmap, a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (long)a) die("sim: cannot map the fixed address space");
}
static void init() {
    if (inited) return;
    inited = true;
    map_at(ARENA, ARENA_SZ); map_at(LSH, ARENA_SZ / 8); map_at(STK, (uptr)MAXT * STK_SZ); map_at(RSH, RSH_SZ); map_at(RAW, RAW_SZ);
    glb_lo = (uptr)&__data_start & ~7ul; glb_hi = ((uptr)&_end + 7) & ~7ul;
    if (glb_hi - glb_lo > GLB_MAX) die("sim: data segment too big");
}
void *raw_alloc(size_t n) { init(); n = (n + 63) & ~63ul; uptr p = rawbump; rawbump += n; if (rawbump > RAW + RAW_SZ) die("sim: out of raw memory"); return (void *)p; }

// ---------------------------------------------------------------- violations and results
static void copystr(char *d, size_t n, const char *s) { size_t i = 0; for (; s[i] && i + 1 < n; i++) d[i] = s[i]; d[i] = 0; }
void finish(int status) {
    R->status = status; R->hash = mix(G.hash, status); R->sync_hash = G.sync_hash; R->steps = G.steps; R->switches = G.nswitch; R->preempts = G.npreempt;
    R->simtime = G.clock; R->nthreads = G.nT; R->done = 1;
    rsys(SYS_exit_group, 0); __builtin_unreachable();
}
[[noreturn]] void viol_pc(const char *cls, uptr pc, uptr pc2, const char *fmt, ...) {
    if (!R || R->cls[0]) { rsys(SYS_exit_group, 98); }
    va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
    copystr(R->cls, sizeof R->cls, cls); R->pc = pc; R->pc2 = pc2; R->viol_tid = G.curT ? G.curT->id : -1;
    for (const char *p = R->cls; *p; p++) G.hash = mix(G.hash, *p);
    finish(2); __builtin_unreachable();
}
[[noreturn]] void viol(const char *cls, const char *fmt, ...) {
    if (!R || R->cls[0]) { rsys(SYS_exit_group, 98); }
    va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
    copystr(R->cls, sizeof R->cls, cls); R->viol_tid = G.curT ? G.curT->id : -1;
    for (const char *p = R->cls; *p; p++) G.hash = mix(G.hash, *p);
    finish(2); __builtin_unreachable();
}

// ---------------------------------------------------------------- scheduler
static void futex_wait(int *w, int v) { rsys(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, v, 0); }
static void futex_wake(int *w) { rsys(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1); }

static const char *wname(int k) { static const char *n[] = {"nothing", "mutex", "condition variable", "join", "once/static-init", "futex", "sleep", "openmp barrier", "openmp idle", "rwlock", "semaphore", "openmp lock"}; return n[k]; }

static void set_cd();
static void vc_join(u32 *a, const u32 *b) { for (int i = 0; i < G.nT; i++) if (b[i] > a[i]) a[i] = b[i]; }

static void baton(Thr *n) {
    Thr *me = G.curT;
    G.nswitch++;
    if (unlikely(G.trace)) { char b[96]; int k = snprintf(b, sizeof b, "sw %d@%llu -> %d (global %llu)\n", me->id, (unsigned long long)me->steps, n->id, (unsigned long long)G.steps); rsys(SYS_write, 2, (long)b, k); }
    G.hash = mix(G.hash, ((u64)me->id << 48) ^ ((u64)n->id << 40) ^ me->steps);
    G.curT = n;
    set_cd();
    __atomic_store_n(&n->go, 1, __ATOMIC_SEQ_CST); futex_wake(&n->go);
    if (me->st == S_DONE) { for (;;) { me->dead = 0; futex_wait(&me->dead, 0); } }
    while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) futex_wait(&me->go, 0);
    __atomic_store_n(&me->go, 0, __ATOMIC_SEQ_CST);
}
static void log_switch(Thr *me, int target) {
    if (R->nsw < MAXSW) { Sw &s = R->sw[R->nsw++]; s.tid = me->id; s.step = me->steps; s.target = target; }
    else if (!G.fair) { G.fair = true; R->fair_at = G.steps; }
}
static int runnable(int *out) { int n = 0; for (int i = 0; i < G.nT; i++) if (G.T[i].st == S_RUN) out[n++] = i; return n; }

// choose by policy among runnable threads; may return the current one
static int pick(bool blocking) {
    int rl[MAXT]; int n = runnable(rl);
    if (n == 0) return -1;
    Thr *me = G.curT;
    if (n == 1) return rl[0];
    if (G.fair) { for (int k = 1; k <= G.nT; k++) { int t = (me->id + k) % G.nT; if (G.T[t].st == S_RUN) return t; } }
    switch (G.pol) {
    case P_PCT: { int b = rl[0]; for (int i = 1; i < n; i++) if (G.T[rl[i]].prio > G.T[b].prio) b = rl[i]; return b; }
    case P_STARVE: {
        if (G.sched.chance(1, 200)) { G.victim = rl[G.sched.below(n)]; }
        int m = 0, r2[MAXT]; for (int i = 0; i < n; i++) if (rl[i] != G.victim) r2[m++] = rl[i];
        R->faults[F_STALL] += (m < n);
        if (m == 0) return rl[0];
        return r2[G.sched.below(m)]; }
    case P_RR: { for (int k = 1; k <= G.nT; k++) { int t = (me->id + k) % G.nT; if (G.T[t].st == S_RUN) return t; } return me->id; }
    case P_SERIAL: if (!blocking) return me->id; return rl[G.sched.below(n)];
    default: return rl[G.sched.below(n)];
    }
}
static int dflt_next() { Thr *me = G.curT; for (int k = 1; k <= G.nT; k++) { int t = (me->id + k) % G.nT; if (G.T[t].st == S_RUN) return t; } return -1; }

static i64 geo(Rng &r, i64 mean) { if (mean <= 1) return 1; // geometric-ish with the given mean
    i64 g = 1; u64 lim = 64; while (lim-- && !r.chance(1, 3)) g++; // 1..~10, mean 3
    return 1 + (i64)r.below((u64)(mean * g * 2 / 3 + 1)); }

static i64 next_gap() {
    if (G.fair) return 200;
    switch (G.pol) {
    case P_WALK: case P_STARVE: return geo(G.sched, G.gap);
    case P_RR: return G.gap;
    case P_BURST: if (G.burst > 0) { G.burst--; return 1 + G.sched.below(4); } G.burst = (int)G.sched.below(12); return geo(G.sched, G.gap * 8);
    case P_PCT: { // next change point
        while (G.npctc && G.pctc[G.npctc - 1] <= G.steps) G.npctc--;
        return G.npctc ? (i64)(G.pctc[G.npctc - 1] - G.steps) : (i64)1 << 60; }
    default: return (i64)1 << 60;
    }
}
static void clamp_cd() {
    if (!G.fair) { i64 d = (i64)(G.fair_after - G.steps); if (d < 1) d = 1; if (G.cd > d) G.cd = d; }
    else { if (G.cd > 200) G.cd = 200; }
    i64 h = (i64)(G.hard - G.steps); if (h < 1) h = 1; if (G.cd > h) G.cd = h;
}
static void set_cd() {   // on switch-in of G.curT
    if (G.replay && !G.fair) {
        Thr *t = G.curT;
        while (t->rp < t->rn && G.rsw[t->rp].step <= t->steps) t->rp++;
        G.cd = t->rp < t->rn ? (i64)(G.rsw[t->rp].step - t->steps) : (i64)1 << 60;
    } else if (G.pol != P_PCT || G.fair) G.cd = next_gap();
    clamp_cd();
}
static void describe_blocked(char *b, size_t n) {
    size_t o = 0; b[0] = 0;
    for (int i = 0; i < G.nT && o + 60 < n; i++) { Thr &t = G.T[i];
        if (t.st == S_BLOCK && t.wk != W_OMPIDLE) o += snprintf(b + o, n - o, "%sthread %d waits on %s", o ? ", " : "", i, wname(t.wk)); }
}
static void go_to(int target, bool preempt) {
    Thr *me = G.curT;
    if (target == me->id) { set_cd(); return; }
    if (preempt) G.npreempt++;
    baton(&G.T[target]);
}
static void __attribute__((noinline)) on_cd() {    // preemption decision at the current step of the current thread
    Thr *me = G.curT;
    if (G.steps >= G.hard) { char b[400]; describe_blocked(b, sizeof b);
        viol("no-progress", "the operation did not complete within %llu steps (the last %llu fair and without faults)%s%s", (unsigned long long)G.hard, (unsigned long long)(G.hard - R->fair_at), b[0] ? ": " : "", b); }
    if (!G.fair && G.steps >= G.fair_after) { G.fair = true; R->fair_at = G.steps; }
    if (G.fair) { int t = dflt_next(); if (t < 0) t = me->id; go_to(t, true); if (G.curT == me && t == me->id) set_cd(); return; }
    if (G.replay) {
        while (me->rp < me->rn && G.rsw[me->rp].step < me->steps) me->rp++;
        if (me->rp < me->rn && G.rsw[me->rp].step == me->steps) {
            int t = G.rsw[me->rp].target; me->rp++;
            if (t < G.nT && t != me->id && G.T[t].st == S_RUN) { log_switch(me, t); go_to(t, true); return; }
        }
        set_cd(); return;
    }
    if (G.pol == P_PCT) {
        while (G.npctc && G.pctc[G.npctc - 1] <= G.steps) { G.npctc--; me->prio = -(i64)(++G.pctlow); }
        G.cd = next_gap(); clamp_cd();
    }
    int t = pick(false);
    if (t != me->id && t >= 0) { log_switch(me, t); go_to(t, true); }
    else if (G.pol != P_PCT) set_cd(); else { G.cd = next_gap(); clamp_cd(); }
}
static inline void tick() {
    Thr *t = G.curT; t->steps++; G.steps++;
    if (unlikely(--G.cd <= 0)) on_cd();
}
static i64 fault_choice(Fault f, u64 permille, u64 range);
static void leap();
static void sync_point(int kind = 0) {
    if (!G.on) return;
    Thr *t = G.curT;
    if (t->quiet) return;
    t->steps++; G.steps++; G.clock += 20;
    G.sync_hash = mix(G.sync_hash, ((u64)t->id << 8) ^ kind);
    if (G.clock_pm && G.leaps < 30) leap();
    bool want = false;
    if (!G.replay && !G.fair) {
        if (G.pol == P_PCT) { int p = pick(false); want = p >= 0 && p != t->id; }
        else want = G.sched.below(1000) < (u64)G.sync_pm;
    }
    if (--G.cd <= 0 || want) on_cd();
}
void point() { if (G.on && !G.curT->quiet) tick(); }

static void block(int wk, const void *obj, u64 deadline = ~0ull) {   // returns when made runnable and scheduled
    Thr *me = G.curT;
    me->st = S_BLOCK; me->wk = wk; me->wobj = obj; me->deadline = deadline;
    me->steps++; G.steps++; G.cd--;
    if (G.steps >= G.hard) on_cd();
    if (!G.fair && G.steps >= G.fair_after) { G.fair = true; R->fair_at = G.steps; }
    for (;;) {
        int d = dflt_next();
        if (d < 0) { // nobody can run: let time pass
            Thr *e = nullptr; for (int i = 0; i < G.nT; i++) { Thr &t = G.T[i]; if (t.st == S_BLOCK && t.deadline != ~0ull && (!e || t.deadline < e->deadline)) e = &t; }
            if (!e) { char b[400]; describe_blocked(b, sizeof b); viol("deadlock", "no thread can run: %s", b); }
            if (G.clock < e->deadline) G.clock = e->deadline;
            e->st = S_RUN; e->timedout = true; e->deadline = ~0ull; continue;
        }
        int t = d;
        if (G.fair) ;
        else if (G.replay) {
            while (me->rp < me->rn && G.rsw[me->rp].step < me->steps) me->rp++;
            if (me->rp < me->rn && G.rsw[me->rp].step == me->steps) { int x = G.rsw[me->rp].target; me->rp++; if (x < G.nT && G.T[x].st == S_RUN) { t = x; if (t != d) log_switch(me, t); } }
        } else { t = pick(true); if (t != d) log_switch(me, t); }
        if (t == me->id) { set_cd(); break; }
        baton(&G.T[t]);
        break;
    }
    me->wk = W_NONE; me->wobj = nullptr; me->deadline = ~0ull;
}
static void wake(Thr *t) { if (t->st == S_BLOCK) { t->st = S_RUN; t->timedout = false; t->deadline = ~0ull; } }
static int wake_all(int wk, const void *obj) { int n = 0; for (int i = 0; i < G.nT; i++) { Thr &t = G.T[i]; if (t.st == S_BLOCK && t.wk == wk && t.wobj == obj) { wake(&t); n++; } } return n; }

// schedule-level faults: recorded by (kind, occurrence)
static i64 fault_choice(Fault f, u64 permille, u64 range) {   // 0 = no fault, else 1..range
    u64 occ = G.focc[f]++;
    i64 v = 0;
    if (G.fair) return 0;
    if (G.replay) { for (int i = 0; i < G.nrfe; i++) if (G.rfe[i].kind == f && (u64)G.rfe[i].occ == occ) { v = G.rfe[i].val; break; } }
    else if (G.sched.below(1000) < permille) v = 1 + (i64)G.sched.below(range);
    if (v && R->nfe < MAXFE) { Fe &e = R->fe[R->nfe++]; e.kind = f; e.occ = (u32)occ; e.val = (u32)v; }
    if (v) { R->faults[f]++; G.hash = mix(G.hash, (f << 8) + v); }
    return v;
}
// the process is suspended for a while between two steps, or somebody sets the wall clock
static void leap() {
    i64 v = fault_choice(F_CLOCK, G.clock_pm, 8);
    if (!v) return;
    static const u64 ns[] = {1000000ull, 100000000ull, 2000000000ull, 30000000000ull, 3600000000000ull, 172800000000000ull};
    G.leaps++;
    if (v > 6) { G.wall += v == 7 ? 86400000000000ull : -86400000000000ull; return; }
    G.clock += ns[v - 1];
    for (int i = 0; i < G.nT; i++) { Thr &t = G.T[i]; if (t.st == S_BLOCK && t.deadline <= G.clock && t.deadline != ~0ull) { t.st = S_RUN; t.timedout = true; t.deadline = ~0ull; } }
}
// workload-level faults: armed by the scenario
void arm(Fault f, i64 k, int err) { G.armed[f] = k; G.armcnt[f] = 0; G.armerr[f] = err; G.firedf[f] = false; G.armtid[f] = G.curT ? G.curT->id : 0; }
bool fired(Fault f) { return G.firedf[f]; }
i64 occurrences(Fault f) { return G.armcnt[f]; }
// occurrence number k of an armed fault is hit; with 0x20000 added to the error, all from then on; allocations count on the arming thread only, with 0x40000 on all
static bool armed_hit(Fault f) {
    if (!G.on || G.curT->quiet || G.curT->nofault) return false;
    if (G.curT->id != G.armtid[f] && f == F_ALLOC && !(G.armerr[f] & 0x40000)) return false;
    i64 c = G.armcnt[f]++;
    if (G.armed[f] >= 0 && (c == G.armed[f] || (c > G.armed[f] && (G.armerr[f] & 0x20000)))) { G.firedf[f] = true; R->faults[f]++; G.hash = mix(G.hash, 0xFA000 + f); return true; }
    return false;
}
void note_fault(Fault f) { R->faults[f]++; }
void obs(u64 v) { G.hash = mix(G.hash, v); }
int self() { return G.curT ? G.curT->id : -1; }
u64 steps() { return G.steps; }
void set_hw(int n) { G.hw = n; }
void race_on(bool b) { G.race = b; }
NoFault::NoFault() { if (G.curT) G.curT->nofault++; }
NoFault::~NoFault() { if (G.curT) G.curT->nofault--; }
Quiet::Quiet() { if (G.curT) G.curT->quiet++; }
Quiet::~Quiet() { if (G.curT) G.curT->quiet--; }
int live_threads() { int n = 0; for (int i = 0; i < G.nT; i++) if (G.T[i].st != S_DONE && !G.T[i].ompw) n++; return n; }
void expect_threads_end() { G.expect_end = true; }
void set_budget(u64 fa, u64 hd) { G.fair_after = fa; G.hard = hd; clamp_cd(); }
void advance(u64 ns) { G.clock += ns; }

// ---------------------------------------------------------------- heap shadow
static void lsh_set(uptr p, u64 n, u8 full, bool dead) {
    u8 *s = (u8 *)(LSH + (p - ARENA) / 8);
    memset(s, dead ? 0xff : full, n / 8);
    if (!dead && (n & 7)) s[n / 8] = (u8)(n & 7);
}
static inline bool lsh_ok(uptr p, u64 n) { // p..p+n inside one live block
    if (n == 0) return true;
    if (p < ARENA || p + n > ARENA + ARENA_SZ || p + n < p) return false;
    uptr a = p, e = p + n;
    while (a < e) {
        u8 v = *(u8 *)(LSH + (a - ARENA) / 8); uptr g = a & ~7ul; uptr hi = g + 8; if (hi > e) hi = e;
        if (v != 0) { if (v == 0xff) return false; if (hi - g > v) return false; }
        a = g + 8;
    }
    return true;
}
bool is_live(const void *p, size_t n) { return lsh_ok((uptr)p, n); }

static void *do_malloc(size_t n, size_t align, bool zero) {
    init();
    bool sim_on = G.on && G.curT;
    if (sim_on && armed_hit(F_ALLOC)) return nullptr;
    if (n > 0x30000000) return nullptr;
    if (align < 16) align = 16;
    uptr p = (bump + sizeof(Hdr) + align - 1) & ~(align - 1);
    uptr e = (p + n + 15) & ~15ul;
    if (e + 32 > ARENA + ARENA_SZ) return nullptr;
    bump = e + 16;                                    // 16-byte red zone after, header (dead) before the next
    Hdr *h = (Hdr *)p - 1;
    h->size = n; h->seq = ++G.allocseq; h->magic = HM_LIVE; h->flags = 0;
    if (sim_on) { if (G.curT->quiet) h->flags |= HF_HARNESS; if (G.curT->exc) h->flags |= HF_EXC; }
    // link for leak accounting: sequential scan uses explicit list
    h->pad = G.lasthdr; G.lasthdr = (u64)h;
    lsh_set(p - sizeof(Hdr), sizeof(Hdr), 0, true);
    u8 *s = (u8 *)(LSH + (p - ARENA) / 8); (void)s;
    lsh_set(p, n & ~7ul, 0, false); if (n & 7) *(u8 *)(LSH + (p + (n & ~7ul) - ARENA) / 8) = (u8)(n & 7);
    { uptr z = (p + n + 7) & ~7ul; memset((void *)(LSH + (z - ARENA) / 8), 0xff, (bump - z) / 8 + 1); }
    if (zero) { if (!sim_on) memset((void *)p, 0, n); }   // fresh pages are zero, but be exact:
    if (zero) memset((void *)p, 0, n);
    else if (sim_on && !G.curT->quiet) memset((void *)p, G.poison < 256 ? G.poison : (u8)mix(G.poison, h->seq), n);
    return (void *)p;
}
static inline void race_range(uptr p, u64 n, bool w, uptr pc);
static void do_free(void *q, u32 kind = 0) {
    uptr p = (uptr)q;
    if (!p) return;
    if (p < ARENA || p >= ARENA + ARENA_SZ) return;
    Hdr *h = (Hdr *)p - 1;
    if (h->magic == HM_FREE) { if (G.on) viol_pc("double-free", (uptr)__builtin_return_address(0), 0, "block of %llu bytes freed twice", (unsigned long long)h->size); return; }
    if (h->magic != HM_LIVE) { if (G.on) viol("bad-free", "free of something that is not an allocated block"); return; }
    if (G.on && G.curT && !G.curT->quiet && !(h->flags & HF_HARNESS) && (h->flags & (HF_NEW | HF_NEWA)) != kind) {
        auto nm = [](u32 k) { return k == HF_NEW ? "new/delete" : k == HF_NEWA ? "new[]/delete[]" : "malloc/free"; };
        viol_pc("bad-free", (uptr)__builtin_return_address(0), 0, "a block from the %s family was released by the %s family", nm(h->flags & (HF_NEW | HF_NEWA)), nm(kind)); }
    h->magic = HM_FREE;
    if (G.on && G.race && !G.curT->quiet && !(h->flags & (HF_EXC | HF_HARNESS))) race_range(p, h->size, true, (uptr)__builtin_return_address(0));
    lsh_set(p, (h->size + 7) & ~7ul, 0, true);
    if (G.on && h->size <= 65536) memset(q, 0xDD, h->size);
}
u64 alloc_mark() { return G.allocseq; }
u64 leaked(u64 mark, u64 *bytes, u64 *first) {
    u64 n = 0, b = 0, f = 0;
    for (Hdr *h = (Hdr *)G.lasthdr; h && h->seq > mark; h = (Hdr *)h->pad)
        if (h->magic == HM_LIVE && !(h->flags & HF_HARNESS)) { n++; b += h->size; f = h->size; }
    if (bytes) *bytes = b;
    if (first) *first = f;
    return n;
}

// ---------------------------------------------------------------- race detector
struct SyncVar { uptr key; u32 *vc; };
static SyncVar *sv; static const u32 SVN = 1 << 16;
static u32 *sync_clock(const void *o) {
    uptr k = (uptr)o; u32 i = (u32)(mix(k, 7) & (SVN - 1));
    for (u32 n = 0; n < SVN; n++, i = (i + 1) & (SVN - 1)) {
        if (sv[i].key == k) return sv[i].vc;
        if (!sv[i].key) { sv[i].key = k; sv[i].vc = (u32 *)raw_alloc(MAXT * 4); return sv[i].vc; }
    }
    die("sim: too many synchronisation objects"); return nullptr;
}
static void hb_acquire(const void *o) { if (G.on && G.race) vc_join(G.curT->vc, sync_clock(o)); }
static void hb_release(const void *o) { if (G.on && G.race) { Thr *t = G.curT; vc_join(sync_clock(o), t->vc); t->vc[t->id]++; } }

static inline uptr rshadow(uptr a) {
    if (a - ARENA < ARENA_SZ) return RSH + (a - ARENA) / 8 * 32;
    if (a - STK < (uptr)MAXT * STK_SZ) return RSH + RSH_STK_OFF + (a - STK) / 8 * 32;
    if (a >= glb_lo && a < glb_hi) return RSH + RSH_GLB_OFF + (a - glb_lo) / 8 * 32;
    return 0;
}
static inline u64 cell(u32 epoch, int tid, u8 mask, bool w, bool at) { return (u64)epoch | ((u64)tid << 32) | ((u64)mask << 40) | ((u64)w << 48) | ((u64)at << 49) | (1ull << 50); }
struct RaceInfo { uptr pc; };
static uptr *last_pc;   // pc of the cell, parallel table (direct mapped, best effort)
static const u32 LPN = 1 << 16;
[[gnu::noinline]] static void report_race(uptr g, u64 c, bool w, bool at, uptr pc) {
    const char *where = g - ARENA < ARENA_SZ ? "heap" : g - STK < (uptr)MAXT * STK_SZ ? "stack" : "global";
    uptr opc = last_pc[mix(g, c & 0xffff01ffffffffffull) & (LPN - 1)];
    viol_pc("data-race", pc, opc, "%s%s by thread %d conflicts with unordered %s%s by thread %d on %s memory", at ? "atomic " : "", w ? "write" : "read", G.curT->id,
            (c >> 49) & 1 ? "atomic " : "", (c >> 48) & 1 ? "write" : "read", (int)((c >> 32) & 0xff), where);
}
static inline void race_gran(uptr g, u8 mask, bool w, bool at, uptr pc) {
    uptr s = rshadow(g); if (!s) return;
    u64 *c = (u64 *)s; Thr *t = G.curT; int slot = -1, empty = -1;
    for (int i = 0; i < 4; i++) {
        u64 v = c[i];
        if (!v) { if (empty < 0) empty = i; continue; }
        u8 m = (u8)(v >> 40); if (!(m & mask)) continue;
        int tid = (int)((v >> 32) & 0xff); bool vw = (v >> 48) & 1, va = (v >> 49) & 1;
        bool hb = tid == t->id || (u32)v <= t->vc[tid];
        if (!hb && (vw || w) && !(va && at)) report_race(g, v, w, at, pc);
        if (hb && (m & mask) == m && (w || !vw) && (va || !at)) { if (slot < 0) slot = i; else c[i] = 0; }
    }
    if (slot < 0) slot = empty >= 0 ? empty : (int)(G.steps & 3);
    u64 nv = cell(t->vc[t->id], t->id, mask, w, at);
    if (c[slot] != nv) { c[slot] = nv; }
    last_pc[mix(g, nv & 0xffff01ffffffffffull) & (LPN - 1)] = pc;
}
static inline void race_range(uptr p, u64 n, bool w, uptr pc) {
    uptr a = p, e = p + n;
    while (a < e) { uptr g = a & ~7ul; uptr hi = g + 8 < e ? g + 8 : e; u8 m = (u8)(((1u << (hi - g)) - 1) & ~((1u << (a - g)) - 1)); race_gran(g, m, w, false, pc); a = g + 8; }
}

// ---------------------------------------------------------------- memory accesses of instrumented code
[[gnu::noinline]] static void bad_access(uptr p, u64 n, bool w, uptr pc) {
    viol_pc("bad-memory", pc, 0, "%s of %llu bytes outside any live heap block", w ? "write" : "read", (unsigned long long)n);
}
void protect(const void *p, size_t n) { if (G.nprot < 48 && n) { G.prot[G.nprot].lo = (uptr)p; G.prot[G.nprot].hi = (uptr)p + n; G.nprot++; } }
void unprotect() { G.nprot = 0; }
static struct MapEnt { uptr p; size_t n; } maps[256]; static int nmaps;
static inline void checks(uptr p, u64 n, bool w, uptr pc) {
    if (unlikely(nmaps)) for (int i = 0; i < nmaps; i++) { uptr m = maps[i].p, e = m + ((maps[i].n + 4095) & ~4095ul); if (p < e && p + n > m && (p < m || p + n > m + maps[i].n)) viol_pc("bad-memory", pc, 0, "%s past the end of a mapped file", w ? "write" : "read"); }
    if (p - ARENA < ARENA_SZ) { if (n <= 8 && !(p & 7)) { u8 v = *(u8 *)(LSH + (p - ARENA) / 8); if (unlikely(v) && (v == 0xff || n > v)) bad_access(p, n, w, pc); }
        else if (unlikely(!lsh_ok(p, n))) bad_access(p, n, w, pc); }
    if (unlikely(w && G.nprot)) for (int i = 0; i < G.nprot; i++) if (p < G.prot[i].hi && p + n > G.prot[i].lo) viol_pc("input-modified", pc, 0, "store of %llu bytes into a read-only input", (unsigned long long)n);
    if (unlikely(p < 4096)) viol_pc("null-access", pc, 0, "%s through a null pointer", w ? "write" : "read");
    if (G.race) { if (n <= 8 && ((p ^ (p + n - 1)) & ~7ul) == 0) race_gran(p & ~7ul, (u8)(((1u << n) - 1) << (p & 7)), w, false, pc); else race_range(p, n, w, pc); }
}
static inline void acc(uptr p, u64 n, bool w, uptr pc) {
    if (!G.on) return;
    if (G.curT->quiet) return;
    tick();
    checks(p, n, w, pc);
}
void check_read(const void *p, size_t n) { if (n) acc((uptr)p, n, false, (uptr)__builtin_return_address(0)); }
void check_write(const void *p, size_t n) { if (n) acc((uptr)p, n, true, (uptr)__builtin_return_address(0)); }

// ---------------------------------------------------------------- threads
struct StartArg { Thr *t; };
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static void (*real_tls_dtors)();
static void *(*real_cxa_alloc)(size_t);
static int (*real_open)(const char *, int, ...), (*real_close)(int);
static int (*real_fstat)(int, struct stat *), (*real_stat)(const char *, struct stat *);
static void *(*real_mmap)(void *, size_t, int, int, int, off_t); static int (*real_munmap)(void *, size_t);
static ssize_t (*real_read)(int, void *, size_t), (*real_pread)(int, void *, size_t, off_t);
static int (*real_clock_gettime)(clockid_t, struct timespec *);
static int (*real_openat)(int, const char *, int, ...);
static long (*real_sysconf)(int);

void init_syms() {
    init();
#define S(v, n) v = (decltype(v))dlsym(RTLD_NEXT, n)
    S(real_create, "pthread_create"); S(real_tls_dtors, "__call_tls_dtors"); S(real_cxa_alloc, "__cxa_allocate_exception");
    S(real_open, "open"); S(real_close, "close"); S(real_fstat, "fstat"); S(real_stat, "stat"); S(real_mmap, "mmap"); S(real_munmap, "munmap");
    S(real_read, "read"); S(real_pread, "pread"); S(real_clock_gettime, "clock_gettime"); S(real_openat, "openat"); S(real_sysconf, "sysconf");
    if (!sv) sv = (SyncVar *)raw_alloc(sizeof(SyncVar) * SVN);
    if (!last_pc) last_pc = (uptr *)raw_alloc(sizeof(uptr) * LPN);
}
static void *tramp(void *a) {
    Thr *t = (Thr *)a;
    while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) futex_wait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
    t->ret = t->fn(t->arg);
    if (real_tls_dtors) real_tls_dtors();
    sync_point(20);
    t->st = S_DONE;
    if (G.race) { if (!t->endvc) t->endvc = (u32 *)raw_alloc(MAXT * 4); memcpy(t->endvc, t->vc, MAXT * 4); }
    wake_all(W_JOIN, t);
    G.sync_hash = mix(G.sync_hash, 0xE0D + t->id);
    t->steps++; G.steps++;
    int n; int d = dflt_next();
    if (d < 0) { t->st = S_BLOCK; t->wk = W_NONE; t->deadline = ~0ull;   // let block() find a timer or report the deadlock
        Thr *e = nullptr; for (int i = 0; i < G.nT; i++) { Thr &x = G.T[i]; if (x.st == S_BLOCK && x.deadline != ~0ull && (!e || x.deadline < e->deadline)) e = &x; }
        if (!e) { t->st = S_DONE; char b[400]; describe_blocked(b, sizeof b); viol("deadlock", "no thread can run: %s", b); }
        if (G.clock < e->deadline) G.clock = e->deadline;
        e->st = S_RUN; e->timedout = true; e->deadline = ~0ull; t->st = S_DONE; d = e->id; }
    n = d;
    if (!G.fair && G.replay) {
        while (t->rp < t->rn && G.rsw[t->rp].step < t->steps) t->rp++;
        if (t->rp < t->rn && G.rsw[t->rp].step == t->steps) { int x = G.rsw[t->rp].target; t->rp++; if (x < G.nT && G.T[x].st == S_RUN) { n = x; if (n != d) log_switch(t, n); } }
    } else if (!G.fair) { n = pick(true); if (n < 0) n = d; if (n != d) log_switch(t, n); }
    baton(&G.T[n]);
    return nullptr;
}
Thr *new_thread(void *(*fn)(void *), void *arg, bool ompw) {
    if (G.nT >= MAXT) return nullptr;
    Thr *t = &G.T[G.nT]; int id = G.nT;
    t->id = id; t->fn = fn; t->arg = arg; t->ompw = ompw; t->st = S_RUN; t->deadline = ~0ull; t->omp_icv = G.hw > 0 ? G.hw : 1;
    t->prio = (i64)(G.sched.next() >> 2);
    if (G.replay) { t->rp = G.rbeg[id]; t->rn = G.rbeg[id + 1]; }
    memset(t->vc, 0, sizeof t->vc);
    if (G.curT) { memcpy(t->vc, G.curT->vc, sizeof t->vc); G.curT->vc[G.curT->id]++; }
    t->vc[id] = 1;
    G.nT++;
    if (G.poison) memset((void *)(STK + (uptr)(id + 1) * STK_SZ - 12288), G.poison < 256 ? G.poison : (u8)mix(G.poison, id), 12288);     // what a fresh stack holds
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void *)(STK + (uptr)id * STK_SZ), STK_SZ);
    Thr *me = G.curT; if (me) { me->quiet++; me->nofault++; }
    int r = real_create(&t->real, &at, tramp, t);
    if (me) { me->quiet--; me->nofault--; }
    pthread_attr_destroy(&at);
    if (r) die("sim: real pthread_create failed");
    return t;
}
static Thr *by_pthread(pthread_t p) { for (int i = 0; i < G.nT; i++) if (pthread_equal(G.T[i].real, p)) return &G.T[i]; return nullptr; }

// ---------------------------------------------------------------- signals
static bool in_text(uptr pc) { return pc >= (uptr)&__executable_start && pc < (uptr)&etext && !(pc >= (uptr)__start_simtext && pc < (uptr)__stop_simtext); }
void (*step_hook)();
static void on_trap(int, siginfo_t *, void *uc) {
    if (!G.on) return;
    Thr *t = G.curT;
    if (!t->stepping || t->quiet) return;
    uptr pc = (uptr)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    if (!in_text(pc)) return;
    R->insn_steps++;
    // what lies below the red zone belongs to nobody at this moment (a signal handler of the program could run here)
    { uptr sp = (uptr)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RSP], lo = STK + (uptr)t->id * STK_SZ; if (sp > lo + 16384 && sp <= lo + STK_SZ) memset((void *)(sp - 128 - 4096), (int)(0x80 | R->insn_steps), 4096); }
    if (step_hook) step_hook();
    tick();
}
static void on_fatal(int sig, siginfo_t *si, void *uc) {
    uptr pc = uc ? (uptr)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP] : 0;
    if (!R) { rsys(SYS_exit_group, 97); }
    if (R->cls[0]) rsys(SYS_exit_group, 98);
    const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : "SIGILL";
    int tid = G.curT ? G.curT->id : -1;
    if (sig == SIGABRT) viol("abort", "the process aborted (assertion, uncaught exception or std::terminate) in thread %d", tid);
    viol_pc(sig == SIGBUS ? "sigbus" : "crash", pc, 0, "%s in thread %d", n, tid);
    (void)si;
}
static u8 *altstk;
void step_begin() {
    if (R->insn_steps > 60000) { tick(); return; }      // enough for one run
    Thr *t = G.curT; const uptr SZ = 131072;
    if (!t->alt) { if (!altstk) { altstk = (u8 *)rsys(SYS_mmap, 0, SZ * (MAXT + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstk + SZ * (uptr)t->id; ss.ss_size = SZ; rsys(SYS_sigaltstack, (long)&ss, 0); t->alt = true; }
    G.curT->stepping = true; __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc"); }
void step_end() { if (!G.curT->stepping) { tick(); return; } __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc"); G.curT->stepping = false; }

// ---------------------------------------------------------------- one run (in the child)
static const Scenario *run_scn; static const Params *run_par;
static void at_exit_final() {
    if (!G.on) return;
    if (G.expect_end && live_threads() > 1) viol("thread-left", "%d threads are still alive when the process has finished exiting", live_threads() - 1);
    finish(1);
}
static void *scn_main(void *) {
    run_scn->run(*run_par);
    exit(0);
    return nullptr;
}
static void draw_policy(const Params &p) {
    Rng &r = G.sched;
    static const u8 mixp[] = {P_WALK, P_WALK, P_WALK, P_PCT, P_PCT, P_SYNC, P_SYNC, P_STARVE, P_BURST, P_RR, P_SERIAL};
    G.pol = mixp[r.below(sizeof mixp)];
    static const int gaps[] = {1, 2, 3, 5, 8, 15, 30, 60, 150, 400, 1500, 6000};
    G.gap = gaps[r.below(12)];
    i64 gmin = p.get("gapmin", 1); if (G.gap < gmin) G.gap = (int)gmin;   // scenarios with much memory traffic ask for rarer preemption
    static const int sp[] = {0, 100, 300, 500, 800};
    G.sync_pm = sp[r.below(5)]; if (G.pol == P_SYNC) G.sync_pm = 300 + (int)r.below(500);
    if (G.pol == P_SERIAL) G.sync_pm = 0;
    static const int spur[] = {0, 0, 50, 200, 400};
    G.spur_pm = spur[r.below(5)]; G.notif_pm = r.chance(1, 2) ? 500 : 0;
    G.team_pm = r.chance(1, 2) ? 300 : 0;
    { Rng c(mix(r.next(), 0xC10C)); static const int cp[] = {2, 5, 20, 80}; G.clock_pm = c.chance(1, 3) ? cp[c.below(4)] : 0; G.leaps = 0; G.wall = 1700000000000000000ull; }
    G.victim = (int)r.below(4);
    if (p.get("pol", -1) >= 0) G.pol = (int)p.get("pol");
    // PCT change points (descending array)
    int d = (int)r.below(7); u64 L = 20; int e = (int)r.below(10); while (e--) L *= 3; if (L > 400000) L = 400000;
    G.npctc = d; for (int i = 0; i < d; i++) G.pctc[i] = 1 + r.below(L);
    for (int i = 0; i < d; i++) for (int j = i + 1; j < d; j++) if (G.pctc[j] > G.pctc[i]) { u64 x = G.pctc[i]; G.pctc[i] = G.pctc[j]; G.pctc[j] = x; }
    R->pol = G.pol; R->gap = G.gap;
}
static void fds_start();
void child_run(const Scenario *s, const Params *p, u64 seed, const Trace *tr) {
    fds_start();
    run_scn = s; run_par = p;
    bump = ARENA_RUN; G.allocseq = 0; G.lasthdr = 0;
    G.nT = 0; G.curT = nullptr; G.steps = 0; G.hash = 0x5EED; G.sync_hash = 1; G.clock = 1000000000ull;
    G.fair_after = 3000000; G.hard = 60000000; G.fair = false;
    G.hw = 4; { u64 z = mix(seed, 0xF111); G.poison = z % 4 == 0 ? 0 : z % 4 == 1 ? 0xFF : z % 4 == 2 ? (int)(z >> 40 & 0xFF) : 256 + (int)(z >> 40 & 0xFFFF); }   // what fresh memory holds
    for (int i = 0; i < F_NKIND; i++) G.armed[i] = -1;
    G.sched = Rng(mix(seed, 0x5C4ED)); R->fair_at = ~0ull;
    draw_policy(*p);
    if (tr) { G.replay = true; G.rsw = tr->sw; for (int i = 0; i <= MAXT; i++) G.rbeg[i] = tr->beg[i]; G.rfe = tr->fe; G.nrfe = tr->nfe; if (tr->fair_at != ~0ull) { G.fair_after = tr->fair_at ? tr->fair_at : 1; } G.replay_fair = tr->fair_at; }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK; sa.sa_sigaction = on_trap; sigaction(SIGTRAP, &sa, 0);
    sa.sa_sigaction = on_fatal; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0);
    atexit(at_exit_final);
    Thr *t = new_thread(scn_main, nullptr, false);
    t->real_main = true;
    G.curT = t; G.on = true; set_cd(); if (!tr && G.pol == P_PCT) { G.cd = next_gap(); clamp_cd(); }
    __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST); futex_wake(&t->go);
    for (;;) rsys(SYS_pause);
}

void Params::set(const char *k, i64 v, i64 lo) {
    for (int i = 0; i < n; i++) if (!strcmp(e[i].k, k)) { e[i].v = v; if (lo != INT64_MIN) e[i].lo = lo; return; }
    if (n >= 40) die("too many params");
    copystr(e[n].k, sizeof e[n].k, k); e[n].v = v; e[n].lo = lo; n++;
}
i64 Params::get(const char *k, i64 d) const { for (int i = 0; i < n; i++) if (!strcmp(e[i].k, k)) return e[i].v; return d; }
Scenario *scenarios;
Scenario::Scenario(const char *nm, void (*g)(Rng &, Params &, int), void (*r)(const Params &)) : name(nm), gen(g), run(r), nxt(scenarios) { scenarios = this; }

static int add_fault_icv(int want) {   // OpenMP team size the runtime actually delivers
    if (want <= 1) return want;
    i64 v = fault_choice(F_TEAM, G.team_pm, want - 1);
    return v ? (int)v : want;
}
int omp_team_size(int want) { return G.on ? add_fault_icv(want) : 1; }
void rt_block(int wk, const void *o) { block(wk, o); }
int rt_wake_all(int wk, const void *o) { return wake_all(wk, o); }
void rt_wake(Thr *t) { wake(t); }
void rt_sync(int k) { sync_point(k); }
void rt_acq(const void *o) { hb_acquire(o); }
void rt_rel(const void *o) { hb_release(o); }

// ---------------------------------------------------------------- files
static u8 fdopen_[4096];
u64 maps_open() { return nmaps; }
static u64 fdbase;   // open before the run
static bool fd_valid(int i) { return rsys(SYS_fcntl, i, F_GETFD) >= 0; }
static void fds_start() { fdbase = 0; for (int i = 0; i < 64; i++) if (fd_valid(i)) fdbase |= 1ull << i; }
u64 fds_open() { u64 n = 0; for (int i = 0; i < 64; i++) n += !(fdbase >> i & 1) && fd_valid(i); for (int i = 64; i < 4096; i++) n += fdopen_[i] && fd_valid(i); return n; }
} // namespace sim

using namespace sim;
#define ONSIM (G.on && G.curT)
#define PC ((uptr)__builtin_return_address(0))

extern "C" {
// ================================================================ __tsan_*
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { acc((uptr)p, n, false, PC); } void __tsan_write##n(void *p) { acc((uptr)p, n, true, PC); } \
  void __tsan_unaligned_read##n(void *p) { acc((uptr)p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { acc((uptr)p, n, true, PC); } \
  void __tsan_volatile_read##n(void *p) { acc((uptr)p, n, false, PC); } void __tsan_volatile_write##n(void *p) { acc((uptr)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { if (n) acc((uptr)p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { if (n) acc((uptr)p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { acc((uptr)p, 8, true, PC); }
void __tsan_vptr_read(void **p) { acc((uptr)p, 8, false, PC); }
static inline void at_pre(void *p, int n, bool w, uptr pc) {
    if (!ONSIM || G.curT->quiet) return;
    sync_point(1); 
    uptr a = (uptr)p;
    if (a - ARENA < ARENA_SZ && !lsh_ok(a, n)) bad_access(a, n, w, pc);
    if (G.race) race_gran(a & ~7ul, (u8)(((n >= 8 ? 0x100u : (1u << n)) - 1) << (a & 7)), w, true, pc);
}
static inline void at_acq(void *p, int mo) { if (ONSIM && G.race && !G.curT->quiet && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) hb_acquire(p); else if (ONSIM && G.race) G.curT->pend_acq = true; }
static inline void at_rel(void *p, int mo) { if (ONSIM && G.race && !G.curT->quiet && (mo == 3 || mo == 4 || mo == 5)) hb_release(p); }
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *p, int mo) { at_pre((void *)p, sizeof(T), false, PC); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); at_acq((void *)p, mo); return v; } \
void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, PC); at_rel((void *)p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); sync_point(2); } \
T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, PC); at_acq((void *)p, mo); at_rel((void *)p, mo); T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); sync_point(2); return r; } \
T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, PC); at_acq((void *)p, mo); at_rel((void *)p, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, PC); at_acq((void *)p, mo); at_rel((void *)p, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, PC); at_acq((void *)p, mo); at_rel((void *)p, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, PC); at_acq((void *)p, mo); at_rel((void *)p, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, PC); at_acq((void *)p, mo); at_rel((void *)p, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, PC); at_acq((void *)p, mo); at_rel((void *)p, mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fm) { at_pre((void *)p, sizeof(T), true, PC); bool ok = *p == *e; if (ok) { at_acq((void *)p, mo); at_rel((void *)p, mo); *p = v; } else { at_acq((void *)p, fm); *e = *p; } return ok; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fm) { at_pre((void *)p, sizeof(T), true, PC); bool ok = *p == *e; if (ok) { at_acq((void *)p, mo); at_rel((void *)p, mo); *p = v; } else { at_acq((void *)p, fm); *e = *p; } return ok; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fm) { at_pre((void *)p, sizeof(T), true, PC); T o = *p; if (o == e) { at_acq((void *)p, mo); at_rel((void *)p, mo); *p = v; } else at_acq((void *)p, fm); return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) { if (ONSIM && !G.curT->quiet) { sync_point(1); if (G.race) { static int fence_obj; hb_acquire(&fence_obj); hb_release(&fence_obj); } } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// wrapped memory functions (references in the objects under test are renamed to these)
void *sim_memmove(void *d, const void *s, size_t n) {
    if (ONSIM && !G.curT->quiet && n) { acc((uptr)s, n, false, PC); acc((uptr)d, n, true, PC); }
    return memmove(d, s, n);
}
void *sim_memcpy(void *d, const void *s, size_t n) {
    if (!(ONSIM && !G.curT->quiet && n)) return memcpy(d, s, n);
    acc((uptr)s, n, false, PC); acc((uptr)d, n, true, PC);
    if (n <= 256) { size_t i = 0; for (; i + 8 <= n; i += 8) { memcpy((char *)d + i, (const char *)s + i, 8); tick(); } memcpy((char *)d + i, (const char *)s + i, n - i); }
    else { size_t q = (n / 4) & ~7ul; for (int k = 0; k < 4; k++) { size_t o = k * q, l = k == 3 ? n - o : q; memcpy((char *)d + o, (const char *)s + o, l); tick(); } }
    return d;
}
void *sim_memset(void *d, int c, size_t n) { if (ONSIM && !G.curT->quiet && n) acc((uptr)d, n, true, PC); return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { if (ONSIM && !G.curT->quiet && n) { acc((uptr)a, n, false, PC); acc((uptr)b, n, false, PC); } return memcmp(a, b, n); }

void *sim_memcpy_chk(void *d, const void *s, size_t n, size_t) { return sim_memcpy(d, s, n); }
void *sim_memmove_chk(void *d, const void *s, size_t n, size_t) { return sim_memmove(d, s, n); }
void *sim_memset_chk(void *d, int c, size_t n, size_t) { return sim_memset(d, c, n); }
void *sim_mempcpy(void *d, const void *s, size_t n) { return (char *)sim_memcpy(d, s, n) + n; }
void *sim_mempcpy_chk(void *d, const void *s, size_t n, size_t) { return (char *)sim_memcpy(d, s, n) + n; }
// strings and formatting: libc does the work, the simulator sees what it reads and writes and may switch around it
#define ACT (ONSIM && !G.curT->quiet)
static inline void rd(const void *p, size_t n, uptr pc) { if (ACT && n) acc((uptr)p, n, false, pc); }
static inline void wr(const void *p, size_t n, uptr pc) { if (ACT && n) { acc((uptr)p, n, true, pc); } }
size_t sim_strlen(const char *s) { size_t n = strlen(s); rd(s, n + 1, PC); return n; }
char *sim_strcpy(char *d, const char *s) { size_t n = strlen(s); rd(s, n + 1, PC); wr(d, n + 1, PC); memmove(d, s, n + 1); return d; }
char *sim_strcpy_chk(char *d, const char *s, size_t) { return sim_strcpy(d, s); }
char *sim_stpcpy(char *d, const char *s) { size_t n = strlen(s); sim_strcpy(d, s); return d + n; }
char *sim_strncpy(char *d, const char *s, size_t n) { size_t m = strnlen(s, n); rd(s, m < n ? m + 1 : n, PC); wr(d, n, PC); return strncpy(d, s, n); }
char *sim_strncpy_chk(char *d, const char *s, size_t n, size_t) { return sim_strncpy(d, s, n); }
char *sim_strcat(char *d, const char *s) { size_t m = strlen(d), n = strlen(s); rd(d, m + 1, PC); rd(s, n + 1, PC); wr(d + m, n + 1, PC); memmove(d + m, s, n + 1); return d; }
char *sim_strcat_chk(char *d, const char *s, size_t) { return sim_strcat(d, s); }
int sim_strcmp(const char *a, const char *b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; rd(a, i + 1, PC); rd(b, i + 1, PC); return strcmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t n) { size_t i = 0; while (i < n && a[i] && a[i] == b[i]) i++; rd(a, i < n ? i + 1 : n, PC); rd(b, i < n ? i + 1 : n, PC); return strncmp(a, b, n); }
const void *sim_memchr(const void *s, int c, size_t n) { const void *r = memchr(s, c, n); rd(s, r ? (size_t)((char *)r - (char *)s) + 1 : n, PC); return r; }
const char *sim_strchr(const char *s, int c) { const char *r = strchr(s, c); rd(s, r ? (size_t)(r - s) + 1 : strlen(s) + 1, PC); return r; }
const char *sim_strrchr(const char *s, int c) { rd(s, strlen(s) + 1, PC); return strrchr(s, c); }
const char *sim_strstr(const char *s, const char *t) { rd(s, strlen(s) + 1, PC); rd(t, strlen(t) + 1, PC); return strstr(s, t); }
static int fmt_v(char *d, size_t n, const char *f, va_list ap, uptr pc) { int r; { NoFault nf; r = vsnprintf(d, n, f, ap); } if (r >= 0 && n) wr(d, (size_t)r < n ? (size_t)r + 1 : n, pc); return r; }
#define FMT(nm, args, d, n) int nm args { va_list ap; va_start(ap, f); int r = fmt_v(d, n, f, ap, PC); va_end(ap); return r; }
FMT(sim_sprintf, (char *d, const char *f, ...), d, 0x7FFFFFFF) FMT(sim_snprintf, (char *d, size_t n, const char *f, ...), d, n)
FMT(sim_sprintf_chk, (char *d, int, size_t, const char *f, ...), d, 0x7FFFFFFF) FMT(sim_snprintf_chk, (char *d, size_t n, int, size_t, const char *f, ...), d, n)
int sim_vsprintf(char *d, const char *f, va_list ap) { return fmt_v(d, 0x7FFFFFFF, f, ap, PC); }
int sim_vsnprintf(char *d, size_t n, const char *f, va_list ap) { return fmt_v(d, n, f, ap, PC); }
int sim_vsprintf_chk(char *d, int, size_t, const char *f, va_list ap) { return fmt_v(d, 0x7FFFFFFF, f, ap, PC); }
int sim_vsnprintf_chk(char *d, size_t n, int, size_t, const char *f, va_list ap) { return fmt_v(d, n, f, ap, PC); }
#define NUM(T, nm) T sim_##nm(const char *s, char **e, int b) { char *x; T r = nm(s, &x, b); rd(s, (size_t)(x - s) + 1, PC); if (e) *e = x; return r; }
NUM(long, strtol) NUM(long long, strtoll) NUM(unsigned long, strtoul) NUM(unsigned long long, strtoull)
long sim_isoc23_strtol(const char *s, char **e, int b) { return sim_strtol(s, e, b); }
long long sim_isoc23_strtoll(const char *s, char **e, int b) { return sim_strtoll(s, e, b); }
unsigned long sim_isoc23_strtoul(const char *s, char **e, int b) { return sim_strtoul(s, e, b); }
unsigned long long sim_isoc23_strtoull(const char *s, char **e, int b) { return sim_strtoull(s, e, b); }
int sim_atoi(const char *s) { rd(s, strlen(s) + 1, PC); return atoi(s); }
// functions with hidden static state that are not safe in several threads
static u64 hid_strtok, hid_rand48, hid_strerror, hid_tm, hid_asc;
char *sim_strtok(char *s, const char *d) { wr(&hid_strtok, 8, PC); char *r = strtok(s, d); if (r) wr(r, strlen(r) + 1, PC); return r; }
double sim_drand48() { wr(&hid_rand48, 8, PC); return drand48(); }
long sim_lrand48() { wr(&hid_rand48, 8, PC); return lrand48(); }
char *sim_strerror(int e) { wr(&hid_strerror, 8, PC); NoFault nf; return strerror(e); }
struct tm *sim_gmtime(const time_t *t) { wr(&hid_tm, 8, PC); NoFault nf; return gmtime(t); }
struct tm *sim_localtime(const time_t *t) { wr(&hid_tm, 8, PC); NoFault nf; return localtime(t); }
char *sim_asctime(const struct tm *t) { wr(&hid_asc, 8, PC); return asctime(t); }
char *sim_ctime(const time_t *t) { wr(&hid_asc, 8, PC); NoFault nf; return ctime(t); }
int sim_rand() { if (ACT) tick(); return rand(); }
void sim_srand(unsigned s) { if (ACT) tick(); srand(s); }
long sim_random() { if (ACT) tick(); return random(); }
void sim_srandom(unsigned s) { if (ACT) tick(); srandom(s); }
void __gmpz_import(void *, size_t, int, size_t, int, size_t, const void *);
void sim_mpz_import(void *z, size_t count, int order, size_t size, int endian, size_t nails, const void *op) {
    unsigned __int128 t = (unsigned __int128)count * size;
    if (ONSIM && !G.curT->quiet && t) { if (t >> 40) bad_access((uptr)op, (u64)t, false, PC); acc((uptr)op, (u64)t, false, PC); }
    NoFault nf; __gmpz_import(z, count, order, size, endian, nails, op);
}

// ================================================================ heap
void *malloc(size_t n) { void *p = do_malloc(n, 16, false); if (!p) errno = ENOMEM; return p; }
void free(void *p) { do_free(p); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void *p = do_malloc(n, 16, true); if (!p) errno = ENOMEM; return p; }
void *realloc(void *q, size_t n) {
    if (!q) return malloc(n);
    if (!n) { free(q); return nullptr; }
    void *p = do_malloc(n, 16, false); if (!p) { errno = ENOMEM; return nullptr; }
    if ((uptr)q - ARENA < ARENA_SZ) { u64 o = ((Hdr *)q - 1)->size; memcpy(p, q, o < n ? o : n); }
    free(q); return p;
}
void *memalign(size_t a, size_t n) { void *p = do_malloc(n, a, false); if (!p) errno = ENOMEM; return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = do_malloc(n, a, false); if (!p) return ENOMEM; *r = p; return 0; }
size_t malloc_usable_size(void *p) { return p && (uptr)p - ARENA < ARENA_SZ ? ((Hdr *)p - 1)->size : 0; }
void *__cxa_allocate_exception(size_t n) {
    if (!real_cxa_alloc) init_syms();
    if (ONSIM) { G.curT->exc++; G.curT->nofault++; }
    void *p = real_cxa_alloc(n);
    if (ONSIM) { G.curT->exc--; G.curT->nofault--; }
    return p;
}

// ================================================================ threads
int pthread_create(pthread_t *p, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!ONSIM) { if (!real_create) init_syms(); return real_create(p, at, fn, arg); }
    sync_point(3);
    if (armed_hit(F_CREATE)) return (G.armerr[F_CREATE] & 0xffff) ? (G.armerr[F_CREATE] & 0xffff) : EAGAIN;
    Thr *t = new_thread(fn, arg, false);
    if (!t) { R->note_limit = 1; return EAGAIN; }
    if (at) { int d = 0; pthread_attr_getdetachstate(at, &d); t->detached = d == PTHREAD_CREATE_DETACHED; }
    *p = t->real;
    R->created++;
    sync_point(4);
    return 0;
}
static int do_join(pthread_t p, void **r) {
    Thr *t = by_pthread(p);
    if (!t) return ESRCH;
    if (t == G.curT) return EDEADLK;
    if (t->joined || t->detached) viol("thread-misuse", "join of a thread that was already joined or detached");
    sync_point(5);
    while (t->st != S_DONE) block(W_JOIN, t);
    t->joined = true;
    if (G.race && t->endvc) vc_join(G.curT->vc, t->endvc);
    if (r) *r = t->ret;
    return 0;
}
int pthread_join(pthread_t p, void **r) { return ONSIM ? do_join(p, r) : ESRCH; }
int pthread_detach(pthread_t p) { if (!ONSIM) return 0; Thr *t = by_pthread(p); if (!t) return ESRCH; t->detached = true; return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }
int pthread_setname_np(pthread_t, const char *) { return 0; }

// mutexes: state inside the object. word 0 = owner+1, word 1 = depth, word 4 = kind (as glibc lays it out)
static inline int *mw(void *m) { return (int *)m; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); mw(m)[4] = k; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (ONSIM && mw(m)[0]) viol("mutex-misuse", "destroying a locked mutex"); return 0; }
static void mutex_alive(void *m, uptr pc) { if (ONSIM && !G.curT->quiet && (uptr)m - ARENA < ARENA_SZ && !lsh_ok((uptr)m, 8)) bad_access((uptr)m, 8, true, pc); }
static int lock_(void *m, u64 deadline, uptr pc) {
    if (!ONSIM) { mw(m)[0] = 1; return 0; }
    mutex_alive(m, pc);
    sync_point(6);
    int me = G.curT->id + 1; int *w = mw(m);
    if (w[0] == me && w[4] == PTHREAD_MUTEX_RECURSIVE_NP) { w[1]++; return 0; }
    if (w[0] == me && w[4] == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    while (w[0]) { block(W_MUTEX, m, deadline); mutex_alive(m, pc); if (G.curT->timedout) { G.curT->timedout = false; if (w[0]) return ETIMEDOUT; } }
    w[0] = me; w[1] = 1; hb_acquire(m);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { return lock_(m, ~0ull, PC); }
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!ONSIM) { mw(m)[0] = 1; return 0; }
    mutex_alive(m, PC); sync_point(6); int me = G.curT->id + 1; int *w = mw(m);
    if (w[0] == me && w[4] == PTHREAD_MUTEX_RECURSIVE_NP) { w[1]++; return 0; }
    if (w[0]) return EBUSY;
    w[0] = me; w[1] = 1; hb_acquire(m); return 0;
}
static u64 ts_ns(const struct timespec *t) { return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
static u64 ts_on(clockid_t c, const struct timespec *t) { u64 n = ts_ns(t); if (c != CLOCK_REALTIME) return n; return n > G.wall ? n - G.wall : 0; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return lock_(m, ts_on(CLOCK_REALTIME, t), PC); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) { return lock_(m, ts_on(c, t), PC); }
static void unlock_(void *m, bool point_after) {
    int *w = mw(m);
    if (!ONSIM) { w[0] = 0; return; }
    if (w[0] != G.curT->id + 1) viol("mutex-misuse", "unlock of a mutex the thread does not hold");
    if (w[1] > 1) { w[1]--; return; }
    hb_release(m); w[0] = 0; w[1] = 0; wake_all(W_MUTEX, m);
    if (point_after) sync_point(7);
}
int pthread_mutex_unlock(pthread_mutex_t *m) { mutex_alive(m, PC); unlock_(m, true); return 0; }

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
    if (ONSIM) { // POSIX: destroying blocks until woken waiters left; destroying with un-notified waiters is an error
        for (int i = 0; i < G.nT; i++) if (G.T[i].st == S_BLOCK && G.T[i].wk == W_COND && G.T[i].wobj == c) viol("condvar-misuse", "condition variable destroyed while thread %d waits on it", i);
    }
    return 0;
}
static int cond_wait_(void *c, void *m, u64 deadline, uptr pc) {
    if (!ONSIM) return 0;
    mutex_alive(c, pc);
    sync_point(8);
    Thr *me = G.curT;
    int depth = mw(m)[1]; mw(m)[1] = 1;
    unlock_(m, false);
    me->timedout = false; me->condseq = ++G.condseq;
    bool spur = fault_choice(F_SPURIOUS, G.spur_pm, 1) != 0;
    if (spur) { sync_point(9); }
    else block(W_COND, c, deadline);
    bool to = me->timedout; me->timedout = false;
    if (deadline != ~0ull && G.clock >= deadline) to = true;
    int *w = mw(m);
    while (w[0]) block(W_MUTEX, m);
    w[0] = me->id + 1; w[1] = depth; hb_acquire(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait_(c, m, ~0ull, PC); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cond_wait_(c, m, ts_on(CLOCK_REALTIME, t), PC); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { return cond_wait_(c, m, ts_on(k, t), PC); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!ONSIM) return 0;
    mutex_alive(c, PC);
    sync_point(10);
    Thr *w[MAXT]; int n = 0;
    for (int i = 0; i < G.nT; i++) if (G.T[i].st == S_BLOCK && G.T[i].wk == W_COND && G.T[i].wobj == c) w[n++] = &G.T[i];
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (w[j]->condseq < w[i]->condseq) { Thr *x = w[i]; w[i] = w[j]; w[j] = x; }
    if (n > 1) { i64 v = fault_choice(F_NOTIFY_ANY, G.notif_pm, n - 1); wake(w[v < n ? v : 0]); }
    else if (n == 1) wake(w[0]);
    sync_point(11);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { if (!ONSIM) return 0; mutex_alive(c, PC); sync_point(10); wake_all(W_COND, c); sync_point(11); return 0; }

int pthread_once(pthread_once_t *o, void (*fn)()) {
    int *w = (int *)o;
    if (!ONSIM) { if (*w != 2) { *w = 2; fn(); } return 0; }
    sync_point(12);
    for (;;) {
        if (*w == 2) { hb_acquire(o); return 0; }
        if (*w == 0) { *w = 1; try { fn(); } catch (...) { *w = 0; wake_all(W_ONCE, o); throw; } hb_release(o); *w = 2; wake_all(W_ONCE, o); sync_point(13); return 0; }
        block(W_ONCE, o);
    }
}
// function-local statics
int __cxa_guard_acquire(u64 *g) {
    u8 *b = (u8 *)g;
    if (!ONSIM) { return b[0] ? 0 : 1; }
    sync_point(12);
    for (;;) {
        if (b[0]) { hb_acquire(g); return 0; }
        if (!b[1]) { b[1] = 1; b[2] = (u8)(G.curT->id + 1); return 1; }
        if (b[2] == G.curT->id + 1) viol("static-init", "recursive initialisation of a static");
        block(W_ONCE, g);
    }
}
void __cxa_guard_release(u64 *g) { u8 *b = (u8 *)g; if (ONSIM) hb_release(g); b[1] = 0; b[0] = 1; if (ONSIM) { wake_all(W_ONCE, g); sync_point(13); } }
void __cxa_guard_abort(u64 *g) { u8 *b = (u8 *)g; b[1] = 0; if (ONSIM) { wake_all(W_ONCE, g); sync_point(13); } }

// rwlocks: word 0 = writer+1, word 1 = readers
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { int *w = mw(l); if (!ONSIM) { w[1]++; return 0; } sync_point(14); while (w[0]) block(W_RW, l); w[1]++; hb_acquire(l); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { int *w = mw(l); if (!ONSIM) { w[0] = 1; return 0; } sync_point(14); while (w[0] || w[1]) block(W_RW, l); w[0] = G.curT->id + 1; hb_acquire(l); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { int *w = mw(l); if (!ONSIM) { w[1]++; return 0; } sync_point(14); if (w[0]) return EBUSY; w[1]++; hb_acquire(l); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { int *w = mw(l); if (!ONSIM) { w[0] = 1; return 0; } sync_point(14); if (w[0] || w[1]) return EBUSY; w[0] = G.curT->id + 1; hb_acquire(l); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { int *w = mw(l); if (!ONSIM) { if (w[0]) w[0] = 0; else w[1]--; return 0; } hb_release(l); if (w[0]) w[0] = 0; else w[1]--; wake_all(W_RW, l); sync_point(15); return 0; }
// semaphores: word 0 = value
int sem_init(sem_t *s, int, unsigned v) { memset(s, 0, sizeof *s); ((int *)s)[0] = (int)v; return 0; }
int sem_destroy(sem_t *) { return 0; }
int sem_wait(sem_t *s) { int *w = (int *)s; if (!ONSIM) { w[0]--; return 0; } sync_point(16); while (w[0] <= 0) block(W_SEM, s); w[0]--; hb_acquire(s); return 0; }
int sem_trywait(sem_t *s) { int *w = (int *)s; if (ONSIM) sync_point(16); if (w[0] <= 0) { errno = EAGAIN; return -1; } w[0]--; hb_acquire(s); return 0; }
int sem_post(sem_t *s) { int *w = (int *)s; hb_release(s); w[0]++; if (ONSIM) { wake_all(W_SEM, s); sync_point(17); } return 0; }
// barriers: word 0 = count, 1 = arrived, 2 = generation
int pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n) { memset(b, 0, sizeof *b); mw(b)[0] = (int)n; return 0; }
int pthread_barrier_destroy(pthread_barrier_t *) { return 0; }
int pthread_barrier_wait(pthread_barrier_t *b) { int *w = mw(b); if (!ONSIM) return 0; sync_point(18); hb_release(b); int g = w[2]; if (++w[1] == w[0]) { w[1] = 0; w[2]++; wake_all(W_RW, b); hb_acquire(b); return PTHREAD_BARRIER_SERIAL_THREAD; } while (w[2] == g) block(W_RW, b); hb_acquire(b); return 0; }
int pthread_spin_init(pthread_spinlock_t *l, int) { *(int *)l = 0; return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) { int *w = (int *)l; if (!ONSIM) { *w = 1; return 0; } sync_point(14); while (*w) block(W_RW, (void *)l); *w = 1; hb_acquire((void *)l); return 0; }
int pthread_spin_unlock(pthread_spinlock_t *l) { int *w = (int *)l; if (ONSIM) hb_release((void *)l); *w = 0; if (ONSIM) { wake_all(W_RW, (void *)l); sync_point(15); } return 0; }

long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && ONSIM) {
        int op = (int)a[1] & 127; int *addr = (int *)a[0];
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sync_point(18);
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; }
            u64 dl = ~0ull; if (a[3]) { dl = ts_on((int)a[1] & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, (struct timespec *)a[3]); if (op == FUTEX_WAIT) dl = ts_ns((struct timespec *)a[3]) + G.clock; }
            if (fault_choice(F_SPURIOUS, G.spur_pm, 1)) { errno = EINTR; return -1; }
            G.curT->timedout = false; block(W_FUTEX, addr, dl);
            if (G.curT->timedout) { G.curT->timedout = false; errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sync_point(19); int k = 0;
            for (int i = 0; i < G.nT && k < (int)a[2]; i++) if (G.T[i].st == S_BLOCK && G.T[i].wk == W_FUTEX && G.T[i].wobj == addr) { wake(&G.T[i]); k++; }
            sync_point(19); return k;
        }
    }
    if (n == SYS_sched_yield && ONSIM) { sched_yield(); return 0; }
    long r = rsys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
int sched_yield() {
    if (!ONSIM) return 0;
    if (G.pol == P_PCT && !G.replay) G.curT->prio = -(i64)(++G.pctlow);
    Thr *me = G.curT; if (me->quiet) return 0;
    G.clock += 100;
    // a yield always gives others a chance
    int rl[MAXT]; if (runnable(rl) > 1) { me->st = S_BLOCK; me->wk = W_SLEEP; me->wobj = nullptr; me->deadline = ~0ull;
        me->steps++; G.steps++; G.cd--; if (G.steps >= G.hard) { me->st = S_RUN; on_cd(); } 
        if (!G.fair && G.steps >= G.fair_after) { G.fair = true; R->fair_at = G.steps; }
        int d = dflt_next(), t = d; me->st = S_RUN; me->wk = W_NONE;
        if (G.fair) ; else if (G.replay) { while (me->rp < me->rn && G.rsw[me->rp].step < me->steps) me->rp++;
            if (me->rp < me->rn && G.rsw[me->rp].step == me->steps) { int x = G.rsw[me->rp].target; me->rp++; if (x < G.nT && G.T[x].st == S_RUN && x != me->id) { t = x; if (t != d) log_switch(me, t); } } }
        else { me->st = S_BLOCK; t = pick(true); me->st = S_RUN; if (t != d) log_switch(me, t); }
        baton(&G.T[t]); }
    else { me->steps++; G.steps++; if (--G.cd <= 0) on_cd(); }
    return 0;
}
static int sleep_ns(u64 ns) { if (!ONSIM) return 0; sync_point(21); G.curT->timedout = false; 
    if (ns == 0) { sched_yield(); return 0; }
    block(W_SLEEP, nullptr, G.clock + ns); G.curT->timedout = false; return 0; }
int nanosleep(const struct timespec *t, struct timespec *) { return sleep_ns(ts_ns(t)); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *) { u64 n = fl & TIMER_ABSTIME ? ts_on(c, t) : ts_ns(t); if (fl & TIMER_ABSTIME) n = n > G.clock ? n - G.clock : 0; return sleep_ns(n); }
int usleep(useconds_t u) { return sleep_ns((u64)u * 1000); }
unsigned sleep(unsigned s) { sleep_ns((u64)s * 1000000000ull); return 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!ONSIM) return (int)rsys(SYS_clock_gettime, c, (long)t);
    u64 n = G.clock + G.steps; if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) n += G.wall;
    t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0;
}
int gettimeofday(struct timeval *t, void *) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *p) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
unsigned _ZNSt6thread20hardware_concurrencyEv() { return (unsigned)(G.on ? G.hw : 4); }
int get_nprocs() { return G.on ? (G.hw > 0 ? G.hw : 1) : 4; }
int get_nprocs_conf() { return get_nprocs(); }
long sysconf(int k) { if (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF) return G.on ? G.hw : 4; if (!real_sysconf) init_syms(); return real_sysconf(k); }
long random() { return (long)(G.env.next() >> 33); }
int rand() { return (int)(G.env.next() >> 33); }
ssize_t getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((u8 *)b)[i] = (u8)G.env.next(); return (ssize_t)n; }
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }

// ================================================================ files (real descriptors on scratch files, with tracking and failures)
static int open_common(const char *p, int fl, mode_t m) {
    if (ONSIM && !G.curT->quiet) {
        sync_point(22);
        if (armed_hit(F_OPEN)) { errno = G.armerr[F_OPEN] & 0xffff; return -1; }
    }
    int r = (int)rsys(SYS_openat, AT_FDCWD, (long)p, fl, m);
    if (r < 0) { errno = -r; return -1; }
    if (ONSIM && !G.curT->quiet && r < 4096) fdopen_[r] = 1;
    return r;
}
int open(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return open_common(p, fl, m); }
int open64(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return open_common(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } if (d == AT_FDCWD || *p == '/') return open_common(p, fl, m); int r = (int)rsys(SYS_openat, d, (long)p, fl, m); if (r < 0) { errno = -r; return -1; } return r; }
int close(int fd) {
    if (ONSIM && !G.curT->quiet) { sync_point(22); if (fd >= 0 && fd < 4096) { if (!fd_valid(fd) || (fd < 64 && (fdbase >> fd & 1) && !fdopen_[fd])) viol("fd-misuse", "close of descriptor %d that is not open", fd); fdopen_[fd] = 0; } }
    int r = (int)rsys(SYS_close, fd); if (r < 0) { errno = -r; return -1; } return 0;
}
static int fstat_common(int fd, struct stat *s) {
    if (ONSIM && !G.curT->quiet) { sync_point(22); if (armed_hit(F_FSTAT)) { errno = G.armerr[F_FSTAT] & 0xffff; return -1; } }
    int r = (int)rsys(SYS_fstat, fd, (long)s); if (r < 0) { errno = -r; return -1; } return 0;
}
int fstat(int fd, struct stat *s) { return fstat_common(fd, s); }
int fstat64(int fd, struct stat64 *s) { return fstat_common(fd, (struct stat *)s); }
int __fxstat(int, int fd, struct stat *s) { return fstat_common(fd, s); }
int __fxstat64(int, int fd, struct stat64 *s) { return fstat_common(fd, (struct stat *)s); }
static void *mmap_common(void *a, size_t n, int pr, int fl, int fd, off_t o) {
    if (ONSIM && !G.curT->quiet) { sync_point(22); if (armed_hit(F_MMAP)) { errno = G.armerr[F_MMAP] & 0xffff; return MAP_FAILED; } }
    long r = rsys(SYS_mmap, (long)a, n, pr, fl, fd, o); if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
    if (ONSIM && !G.curT->quiet && nmaps < 256) { maps[nmaps].p = (uptr)r; maps[nmaps].n = n; nmaps++; }
    return (void *)r;
}
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap_common(a, n, pr, fl, fd, o); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap_common(a, n, pr, fl, fd, o); }
int munmap(void *a, size_t n) {
    if (ONSIM && !G.curT->quiet) { sync_point(22); int f = -1; for (int i = 0; i < nmaps; i++) if (maps[i].p == (uptr)a && maps[i].n == n) f = i;
        if (f >= 0) maps[f] = maps[--nmaps];
        else { if ((uptr)a == ~0ull || n == 0) { errno = EINVAL; return -1; }
            viol("unmap-misuse", "munmap of something that was not mapped"); } }
    long r = rsys(SYS_munmap, (long)a, n); if (r < 0) { errno = (int)-r; return -1; } return 0;
}
// armed with error 0: the k-th read is short; with an error: it fails; with 0x10000 added: all reads before it are short, too
static bool read_fault(size_t &n) {
    int e = G.armerr[F_READ]; bool all = G.armed[F_READ] >= 0 && (e & 0x10000), hit = armed_hit(F_READ);
    if (hit && (e & 0xffff)) { errno = e & 0xffff; return true; }
    if ((hit || all) && n > 1) { if (!hit) R->faults[F_READ]++; n = n / 2 < 4096 ? n / 2 : 4096; }
    return false;
}
ssize_t read(int fd, void *b, size_t n) {
    if (ONSIM && !G.curT->quiet) { sync_point(22); if (read_fault(n)) return -1; }
    long r = rsys(SYS_read, fd, (long)b, n); if (r < 0) { errno = (int)-r; return -1; } return r;
}
static ssize_t pread_common(int fd, void *b, size_t n, off_t o) {
    if (ONSIM && !G.curT->quiet) { sync_point(22); if (read_fault(n)) return -1; }
    long r = rsys(SYS_pread64, fd, (long)b, n, o); if (r < 0) { errno = (int)-r; return -1; } return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread_common(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread_common(fd, b, n, o); }
} // extern C
// ================================================================ operator new and delete: as malloc, but the family is remembered
static void *op_new(size_t n, size_t al, u32 kind) { void *p = do_malloc(n ? n : 1, al, false); if (p) ((Hdr *)p - 1)->flags |= kind; return p; }
static void *op_new_t(size_t n, size_t al, u32 kind) { void *p = op_new(n, al, kind); if (!p) std::__throw_bad_alloc(); return p; }
void *operator new(size_t n) { return op_new_t(n, 16, HF_NEW); }
void *operator new[](size_t n) { return op_new_t(n, 16, HF_NEWA); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, HF_NEW); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, HF_NEWA); }
void *operator new(size_t n, std::align_val_t a) { return op_new_t(n, (size_t)a, HF_NEW); }
void *operator new[](size_t n, std::align_val_t a) { return op_new_t(n, (size_t)a, HF_NEWA); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return op_new(n, (size_t)a, HF_NEW); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return op_new(n, (size_t)a, HF_NEWA); }
void operator delete(void *p) noexcept { do_free(p, HF_NEW); }
void operator delete[](void *p) noexcept { do_free(p, HF_NEWA); }
void operator delete(void *p, size_t) noexcept { do_free(p, HF_NEW); }
void operator delete[](void *p, size_t) noexcept { do_free(p, HF_NEWA); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_free(p, HF_NEW); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_free(p, HF_NEWA); }
void operator delete(void *p, std::align_val_t) noexcept { do_free(p, HF_NEW); }
void operator delete[](void *p, std::align_val_t) noexcept { do_free(p, HF_NEWA); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_free(p, HF_NEW); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_free(p, HF_NEWA); }

// A small OpenMP runtime (GNU ABI) on the simulated scheduler.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt_int.h"
#include <cstring>
#include <cstdlib>
namespace sim {
struct WS { bool init; bool ull; long start, end, incr, chunk, next; int kind; unsigned long ustart, uend, uincr, uchunk, unext; bool up; bool single_taken; int sec_next, sec_n; int left; void *copy; };
struct OmpTeam { int n; int arrived; u64 gen; int done; Thr *master; WS ws[64]; OmpTeam *prev; int prev_tid; u32 prev_ws; int id; void *lastprivate; };
static void *omp_worker(void *) {
    Thr *me = G.curT;
    for (;;) {
        while (!me->omp_busy) rt_block(W_OMPIDLE, me);
        rt_acq(me->omp_data ? (void *)me->team : (void *)me->team);
        me->omp_fn(me->omp_data);
        rt_rel(me->team);
        me->omp_busy = false;
        me->team->done++;
        rt_wake_all(W_OMPBAR, &me->team->done);
        rt_sync(30);
    }
    return nullptr;
}
static bool has_worker_room() { return G.nT < MAXT - 2; }
static void run_parallel(void (*fn)(void *), void *data, unsigned want, WS *ws0) {
    Thr *me = G.curT;
    if (!G.on || !me) { fn(data); return; }
    int n = want ? (int)want : me->omp_icv; if (n < 1) n = 1;
    if (me->team) n = 1;                        // nested regions are serialised, the OpenMP default
    if (n > MAXT) n = MAXT;
    rt_sync(31);
    n = omp_team_size(n);
    while (me->omp_nworkers < n - 1) {
        if (!has_worker_room()) break;
        Thr *t = new_thread(omp_worker, nullptr, true);
        if (!t) break;
        t->omp_master = me; me->omp_workers[me->omp_nworkers++] = t;
    }
    if (n > me->omp_nworkers + 1) n = me->omp_nworkers + 1;
    OmpTeam *tm = (OmpTeam *)raw_alloc(sizeof(OmpTeam));
    memset((void *)tm, 0, sizeof *tm);
    tm->n = n; tm->master = me; tm->prev = me->team; tm->prev_tid = me->omp_tid; tm->prev_ws = me->wscount;
    if (ws0) { tm->ws[0] = *ws0; tm->ws[0].init = true; }
    rt_rel(tm);
    for (int i = 1; i < n; i++) {
        Thr *w = me->omp_workers[i - 1];
        w->team = tm; w->omp_tid = i; w->wscount = ws0 ? 1 : 0; w->omp_fn = fn; w->omp_data = data; w->omp_icv = me->omp_icv; w->omp_busy = true;
        if (w->st == S_BLOCK && w->wk == W_OMPIDLE) rt_wake(w);
    }
    me->team = tm; me->omp_tid = 0; me->wscount = ws0 ? 1 : 0;
    rt_sync(32);
    fn(data);
    while (tm->done < n - 1) rt_block(W_OMPBAR, &tm->done);
    rt_acq(tm);
    me->team = tm->prev; me->omp_tid = tm->prev_tid; me->wscount = tm->prev_ws;
    rt_sync(33);
}
static WS *cur_ws(bool fresh) { Thr *t = G.curT; return &t->team->ws[(fresh ? t->wscount++ : t->wscount - 1) & 63]; }
enum { K_STATIC, K_DYN, K_GUIDED };
static WS solo[MAXT];
static WS *ws_for(bool fresh) { Thr *t = G.curT; if (!t->team) return &solo[t->id]; return cur_ws(fresh); }
static int nthr() { Thr *t = G.on ? G.curT : nullptr; return t && t->team ? t->team->n : 1; }
static bool next_l(WS *w, long *a, long *b) {
    rt_sync(34);
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
    long c = w->chunk > 0 ? w->chunk : 1;
    if (w->kind == K_GUIDED) { long rem = (w->end - w->next + w->incr + (w->incr > 0 ? -1 : 1)) / w->incr; long q = (rem + nthr() - 1) / nthr(); if (q > c) c = q; }
    long e = w->next + c * w->incr;
    if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
    *a = w->next; *b = e; w->next = e;
    return true;
}
static bool next_u(WS *w, unsigned long *a, unsigned long *b) {
    rt_sync(34);
    unsigned long left = w->up ? (w->unext < w->uend ? w->uend - w->unext : 0) : (w->unext > w->uend ? w->unext - w->uend : 0);
    if (!left) return false;
    unsigned long inc = w->up ? w->uincr : -w->uincr, c = w->uchunk ? w->uchunk : 1;
    unsigned long rem = (left + inc - 1) / inc;
    if (w->kind == K_GUIDED) { unsigned long q = (rem + nthr() - 1) / nthr(); if (q > c) c = q; }
    if (c > rem) c = rem;
    unsigned long span = c * inc; if (span > left) span = left;
    *a = w->unext; *b = w->up ? w->unext + span : w->unext - span; w->unext = *b;
    return true;
}
static WS mk(long s, long e, long i, long c, int k) { WS w; memset((void *)&w, 0, sizeof w); w.init = true; w.start = w.next = s; w.end = e; w.incr = i; w.kind = k;
    if (k == K_STATIC && c <= 0) { long n = (e - s + i + (i > 0 ? -1 : 1)) / i; c = (n + nthr() - 1) / nthr(); if (c < 1) c = 1; } w.chunk = c; return w; }
static bool loop_start(long s, long e, long i, long c, long *a, long *b, int k) { rt_sync(34); WS *w = ws_for(true); if (!G.curT->team || !w->init) *w = mk(s, e, i, c, k); return next_l(w, a, b); }
static bool uloop_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *a, unsigned long *b, int k) {
    rt_sync(34); WS *w = ws_for(true);
    if (!G.curT->team || !w->init) { memset((void *)w, 0, sizeof *w); w->init = w->ull = true; w->up = up; w->ustart = w->unext = s; w->uend = e; w->uincr = i; w->kind = k;
        if (k == K_STATIC && !c) { unsigned long inc = up ? i : -i, n = up ? (e > s ? (e - s + inc - 1) / inc : 0) : (s > e ? (s - e + inc - 1) / inc : 0); c = (n + nthr() - 1) / nthr(); if (!c) c = 1; } w->uchunk = c; }
    return next_u(w, a, b); }
static void barrier() {
    Thr *me = G.curT; OmpTeam *t = G.on && me ? me->team : nullptr; if (!t || t->n == 1) return;
    rt_sync(35); rt_rel(&t->arrived);
    u64 g = t->gen;
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; rt_wake_all(W_OMPBAR, &t->arrived); }
    else while (t->gen == g) rt_block(W_OMPBAR, &t->arrived);
    rt_acq(&t->arrived);
}
static void olock(int *w) { if (!G.on) { *w = 1; return; } rt_sync(36); while (*w) rt_block(W_OMPLOCK, w); *w = G.curT->id + 1; rt_acq(w); }
static void ounlock(int *w) { if (!G.on) { *w = 0; return; } rt_rel(w); *w = 0; rt_wake_all(W_OMPLOCK, w); rt_sync(37); }
}
using namespace sim;
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { run_parallel(fn, d, n, nullptr); }
void GOMP_barrier() { barrier(); }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_barrier_cancel() { barrier(); return false; }
static int crit, atom;
void GOMP_critical_start() { olock(&crit); }
void GOMP_critical_end() { ounlock(&crit); }
void GOMP_critical_name_start(void **p) { olock((int *)p); }
void GOMP_critical_name_end(void **p) { ounlock((int *)p); }
void GOMP_atomic_start() { olock(&atom); }
void GOMP_atomic_end() { ounlock(&atom); }
bool GOMP_single_start() { Thr *t = G.curT; if (!G.on || !t->team) return true; rt_sync(38); WS *w = cur_ws(true); if (w->single_taken) return false; w->single_taken = true; return true; }
void *GOMP_single_copy_start() { Thr *t = G.curT; if (!G.on || !t->team) return nullptr; rt_sync(38); WS *w = cur_ws(true); if (!w->single_taken) { w->single_taken = true; return nullptr; } barrier(); return w->copy; }
void GOMP_single_copy_end(void *d) { Thr *t = G.curT; if (!G.on || !t->team) return; WS *w = cur_ws(false); w->copy = d; barrier(); }
#define LOOPS(nm, k) \
bool GOMP_loop_##nm##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b, k); } \
bool GOMP_loop_##nm##_next(long *a, long *b) { return next_l(ws_for(false), a, b); } \
bool GOMP_loop_ull_##nm##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { return uloop_start(up, s, e, i, c, (unsigned long *)a, (unsigned long *)b, k); } \
bool GOMP_loop_ull_##nm##_next(unsigned long long *a, unsigned long long *b) { return next_u(ws_for(false), (unsigned long *)a, (unsigned long *)b); } \
void GOMP_parallel_loop_##nm(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { WS w = mk(s, e, i, c, k); if (!G.on) { fn(d); return; } run_parallel(fn, d, n, &w); }
LOOPS(static, K_STATIC) LOOPS(dynamic, K_DYN) LOOPS(guided, K_GUIDED) LOOPS(nonmonotonic_dynamic, K_DYN) LOOPS(nonmonotonic_guided, K_GUIDED)
#define LOOPR(nm) \
bool GOMP_loop_##nm##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b, K_DYN); } \
bool GOMP_loop_##nm##_next(long *a, long *b) { return next_l(ws_for(false), a, b); } \
bool GOMP_loop_ull_##nm##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *a, unsigned long long *b) { return uloop_start(up, s, e, i, 1, (unsigned long *)a, (unsigned long *)b, K_DYN); } \
bool GOMP_loop_ull_##nm##_next(unsigned long long *a, unsigned long long *b) { return next_u(ws_for(false), (unsigned long *)a, (unsigned long *)b); } \
void GOMP_parallel_loop_##nm(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { WS w = mk(s, e, i, 1, K_DYN); if (!G.on) { fn(d); return; } run_parallel(fn, d, n, &w); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_start(unsigned n) { if (!G.on) return 0; rt_sync(39); WS *w = ws_for(true); if (!w->init) { w->init = true; w->sec_n = (int)n; w->sec_next = 1; } return w->sec_next <= w->sec_n ? w->sec_next++ : 0; }
unsigned GOMP_sections_next() { rt_sync(39); WS *w = ws_for(false); return w->sec_next <= w->sec_n ? w->sec_next++ : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned) { WS w; memset((void *)&w, 0, sizeof w); w.init = true; w.sec_n = (int)cnt; w.sec_next = 1; run_parallel(fn, d, n, &w); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long align, bool, unsigned, void **, int, void *) {
    if (cpy) { char buf[sz + align - 1]; char *p = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1)); cpy(p, data); fn(p); } else fn(data); }
void GOMP_taskwait() {}
void GOMP_taskyield() { rt_sync(40); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
static int solo_icv = 4;
int omp_get_thread_num() { return G.on && G.curT && G.curT->team ? G.curT->omp_tid : 0; }
int omp_get_num_threads() { return nthr(); }
int omp_get_max_threads() { return G.on && G.curT ? G.curT->omp_icv : solo_icv; }
void omp_set_num_threads(int n) { if (n < 1) n = 1; if (G.on && G.curT) { rt_sync(41); G.curT->omp_icv = n; } else solo_icv = n; }
int omp_get_num_procs() { return G.on ? (G.hw > 0 ? G.hw : 1) : 4; }
int omp_in_parallel() { return nthr() > 1; }
void omp_set_dynamic(int d) { if (G.on && G.curT) G.curT->omp_dyn = d; }
int omp_get_dynamic() { return G.on && G.curT ? G.curT->omp_dyn : 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return MAXT; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
int omp_get_level() { return G.on && G.curT && G.curT->team ? 1 : 0; }
int omp_get_active_level() { return nthr() > 1; }
double omp_get_wtime() { return (double)G.clock * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(int *l) { *l = 0; }
void omp_destroy_lock(int *) {}
void omp_set_lock(int *l) { olock(l); }
void omp_unset_lock(int *l) { ounlock(l); }
int omp_test_lock(int *l) { if (G.on) rt_sync(36); if (*l) return 0; *l = G.on ? G.curT->id + 1 : 1; rt_acq(l); return 1; }
}

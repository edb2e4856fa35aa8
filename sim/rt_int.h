// Internal structures shared by rt.cpp, gomp.cpp and driver.cpp
#pragma once
#include "rt.h"
#include <pthread.h>
namespace sim {
enum { MAXT = 128, MAXSW = 60000, MAXFE = 4000 };
enum { S_RUN, S_BLOCK, S_DONE };
enum { W_NONE, W_MUTEX, W_COND, W_JOIN, W_ONCE, W_FUTEX, W_SLEEP, W_OMPBAR, W_OMPIDLE, W_RW, W_SEM, W_OMPLOCK };
struct Sw { u32 tid, target; u64 step; };
struct Fe { u32 kind, occ, val; };
struct Trace { Sw *sw; int nsw; int beg[MAXT + 1]; Fe *fe; int nfe; u64 fair_at; };
struct OmpTeam;
struct Thr {
    int id; int st; int wk; const void *wobj; u64 deadline; bool timedout; int go, dead;
    u64 steps; i64 prio; int quiet, nofault, exc; bool stepping, alt, pend_acq, ompw, detached, joined, real_main;
    u64 condseq; int rp, rn;
    pthread_t real; void *(*fn)(void *); void *arg, *ret;
    u32 vc[MAXT]; u32 *endvc;
    // OpenMP
    int omp_icv, omp_tid; OmpTeam *team; u32 wscount; int omp_dyn;
    Thr *omp_workers[MAXT]; int omp_nworkers; void (*omp_fn)(void *); void *omp_data; Thr *omp_master; bool omp_busy;
};
struct Range_ { uintptr_t lo, hi; };
struct Globals {
    bool on, race, fair, replay, expect_end, trace;
    Thr T[MAXT]; int nT; Thr *curT;
    u64 steps, hash, sync_hash, clock, nswitch, npreempt, fair_after, hard, replay_fair; i64 cd;
    Rng sched, env;
    u64 wall; int clock_pm, leaps; int pol, gap, sync_pm, spur_pm, notif_pm, team_pm, victim, burst, npctc; u64 pctc[16]; u64 pctlow;
    u64 focc[F_NKIND]; i64 armed[F_NKIND], armcnt[F_NKIND]; int armerr[F_NKIND], armtid[F_NKIND]; bool firedf[F_NKIND];
    Sw *rsw; int rbeg[MAXT + 1]; Fe *rfe; int nrfe;
    u64 allocseq, lasthdr, condseq; int hw, poison;
    Range_ prot[48]; int nprot;
};
struct Result {
    int done, status; char cls[48]; char msg[512]; uintptr_t pc, pc2; int viol_tid;
    u64 hash, sync_hash, steps, switches, preempts, simtime, insn_steps, fair_at; int nthreads, created, pol, gap, note_limit;
    u64 faults[F_NKIND];
    int nsw, nfe; Sw sw[MAXSW]; Fe fe[MAXFE];
};
extern Globals G; extern Result *R; extern Scenario *scenarios;
void init_syms();
Thr *new_thread(void *(*fn)(void *), void *arg, bool ompw);
void child_run(const Scenario *, const Params *, u64 seed, const Trace *);
int omp_team_size(int want);
void rt_block(int wk, const void *o); int rt_wake_all(int wk, const void *o); void rt_wake(Thr *); void rt_sync(int k); void rt_acq(const void *o); void rt_rel(const void *o);
}

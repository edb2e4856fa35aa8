// Scenarios on the thread pool (instrumented: every access in here and in the pool is a preemption point).
#include "misc.hpp"
#include "probe.h"
#include <cstdlib>
#include <new>
#include <stdexcept>
#include <thread>
#include <vector>
#include <memory>
#include <cstdio>
#include <climits>
using sim::Params; using sim::Rng; using sim::i64; using sim::u64;

struct Boom {};

// One parallel call described by numbers.
struct CallSpec { bool block; int begin, end; int work; bool touch; bool thr; };

static void do_call(ThreadPool &pool, const CallSpec &cs, bool &threw) {
    const int nthr = (int)pool.getThreadCount();
    int id; std::unique_ptr<int[]> out; long n = cs.end > cs.begin ? (long)cs.end - cs.begin : 0;
    { sim::Quiet q; id = probe::call_begin(cs.block, cs.begin, cs.end, nthr);
      long m = cs.block ? nthr : cs.touch ? n : 0; if (m) { out.reset(new int[m]); for (long i = 0; i < m; i++) out[i] = 0; } }
    int base = 41; int *o = out.get(); int seen = 0;
    threw = false;
    if (cs.touch || cs.block) for (long i = 0; i < (cs.block ? nthr : n) && i < 4; i++) o[i] = 0;   // caller's own writes before the call
    base = 42;
    try {
        if (cs.block) {
            pool.parallelBlock([&](int k, int nt) {
                probe::enter(id, 0, 0, k, nt);
                int b = base;
                for (int i = 0; i < cs.work; i++) sim::point();
                if (b != 42) sim::viol("stale-capture", "a share did not see what its caller wrote before the call");
                bool t = cs.thr && probe::is_caller(id);
                if (t) { sim::note_fault(sim::F_THROW); probe::leave(id); throw Boom(); }
                o[k] += 1;
                probe::leave(id);
            });
        } else {
            pool.parallelFor(cs.begin, cs.end, [&](int b, int e, int k) {
                probe::enter(id, b, e, k, nthr);
                int bb = base;
                if (bb != 42) sim::viol("stale-capture", "a share did not see what its caller wrote before the call");
                for (int i = 0; i < cs.work; i++) sim::point();
                bool t = cs.thr && probe::is_caller(id);
                if (t) { sim::note_fault(sim::F_THROW); probe::leave(id); throw Boom(); }
                if (cs.touch) for (int i = b; i < e; i++) o[i - (long)cs.begin] += 1;
                probe::leave(id);
            });
        }
        probe::call_end(id);
        base = 43;
        if (cs.touch || cs.block) for (long i = 0; i < (cs.block ? nthr : n); i++) { seen += o[i]; if (o[i] != 1) sim::viol("lost-share", "index %ld was run %d times", i + cs.begin, o[i]); }
    } catch (Boom &) { threw = true; probe::call_failed(id); base = 44; if (!cs.thr) sim::viol("wrong-exception", "unexpected exception"); }
    catch (...) { threw = true; probe::call_failed(id); base = 44; sim::Quiet q; out.reset(); throw; }
    { sim::Quiet q; out.reset(); }
    if (cs.thr && !threw && !(n == 0 && !cs.block)) sim::viol("lost-exception", "the exception of the caller's share was swallowed");
}

static CallSpec spec(u64 seed, int nthr, int maxn, bool thr = false) {
    sim::Quiet q; Rng r(seed); CallSpec c; c.thr = thr; c.touch = true;
    c.block = r.chance(1, 4); c.work = (int)r.below(6);
    long n;
    switch (r.below(9)) {
    case 0: n = 0; break; case 1: n = 1; break; case 2: n = nthr; break; case 3: n = nthr + 1; break; case 4: n = nthr - 1; break;
    case 5: n = (long)r.below(2 * nthr + 3); break; case 6: n = (long)r.below(maxn + 1); break;
    case 7: n = (long)nthr * (1 + (long)r.below(4)) + (long)r.below(nthr); break;
    default: n = r.chance(1, 3) ? INT_MAX - (long)r.below(3) : (long)r.below(INT_MAX); c.touch = false; break; }
    if (n > maxn) c.touch = false;
    long b;
    switch (r.below(6)) { case 0: case 1: b = 0; break; case 2: b = 1; break; case 3: b = -(long)r.below(n < 1000 ? n + 2 : 1000); break;
    case 4: b = (long)INT_MAX - n - (long)r.below(3); break; default: b = (long)INT_MIN + (long)r.below(3); break; }
    if (b + n > INT_MAX) b = (long)INT_MAX - n;
    if (b < INT_MIN) b = INT_MIN;
    c.begin = (int)b; c.end = (int)(b + n);
    if (n == 0 && r.chance(1, 2)) { c.end = c.begin > INT_MIN + 5 ? c.begin - (int)r.below(5) : c.begin; }
    return c;
}
static int gen_nthr(Rng &r) { int x = (int)r.below(20); return x == 0 ? 1 : x < 10 ? 2 + (int)r.below(3) : x < 17 ? 2 + (int)r.below(8) : x < 19 ? 8 + (int)r.below(25) : 33 + (int)r.below(32); }

// ---- C01 / C09: one caller, a sequence of calls on one pool
static void gen_for(Rng &r, Params &p, int) {
    p.set("nthr", gen_nthr(r), 1); p.set("calls", 1 + r.below(4), 1); p.set("maxn", r.chance(1, 10) ? 2000 : 60, 1); p.set("cseed", (i64)(r.next() >> 1)); p.set("dflt", r.chance(1, 5), 0);
    p.set("gapmin", p["nthr"] > 16 ? 30 : 1);
}
static void run_for_(const Params &p) {
    int nthr = (int)p["nthr"]; sim::set_hw(p["dflt"] ? nthr : 4);
    std::unique_ptr<ThreadPool> own; ThreadPool *pool;
    if (p["dflt"]) pool = &ThreadPool::defaultPool(); else { own.reset(new ThreadPool((unsigned)nthr)); pool = own.get(); }
    if ((int)pool->getThreadCount() != nthr) sim::viol("thread-count", "asked for %d threads, the pool has %d", nthr, (int)pool->getThreadCount());
    for (int i = 0; i < p["calls"]; i++) { bool t; CallSpec c = spec(sim::mix(p["cseed"], i), nthr, (int)p["maxn"]); do_call(*pool, c, t); }
}
static void run_for(const Params &p) { run_for_(p); }
static void run_for_race(const Params &p) { sim::race_on(true); run_for_(p); }
static sim::Scenario s_for("pool_for", gen_for, run_for), s_for_r("pool_for_race", gen_for, run_for_race);

// ---- C02: construction and shutdown
static void gen_life(Rng &r, Params &p, int) {
    p.set("nthr", gen_nthr(r), 1); p.set("pools", 1 + r.below(3), 1); p.set("calls", r.below(3), 0); p.set("mode", r.below(6)); p.set("hw", r.chance(1, 3) ? r.below(3) : 1 + r.below(12), 0); p.set("cseed", (i64)(r.next() >> 1));
    if (p["nthr"] > 24) p.set("pools", 1);
}
static void life_calls(ThreadPool &pool, const Params &p, int salt) {
    for (int i = 0; i < p["calls"]; i++) { bool t; CallSpec c = spec(sim::mix(p["cseed"], i * 31 + salt), (int)pool.getThreadCount(), 20); do_call(pool, c, t); }
}
static void check_gone(int before) { if (sim::live_threads() > before) sim::viol("thread-left", "%d worker threads are alive after their pool was destroyed", sim::live_threads() - before); }
static void run_life_(const Params &p) {
    sim::set_hw((int)p["hw"]); sim::expect_threads_end();
    int mode = (int)p["mode"];
    if (mode <= 1) {           // pools one after another
        for (int i = 0; i < p["pools"]; i++) { { ThreadPool pool((unsigned)p["nthr"]); if (mode == 1) life_calls(pool, p, i); } check_gone(1); }
    } else if (mode == 2) {    // several alive, destroyed in an arbitrary order
        std::vector<std::unique_ptr<ThreadPool>> v; int n = (int)p["pools"]; int per = (int)p["nthr"] > 12 ? 12 : (int)p["nthr"];
        for (int i = 0; i < n; i++) v.emplace_back(new ThreadPool((unsigned)per));
        for (int i = 0; i < n; i++) life_calls(*v[i], p, i);
        Rng r(p["cseed"]); while (!v.empty()) { size_t k = r.below(v.size()); v.erase(v.begin() + k); }
        check_gone(1);
    } else if (mode == 3) {    // made here, destroyed by another thread
        std::unique_ptr<ThreadPool> q(new ThreadPool((unsigned)p["nthr"])); life_calls(*q, p, 0);
        std::thread t([&] { q.reset(); }); t.join(); check_gone(1);
    } else {                   // default pool, shut down by process exit
        ThreadPool &d = ThreadPool::defaultPool(); int hw = (int)p["hw"];
        if ((int)d.getThreadCount() != (hw < 1 ? 1 : hw)) sim::viol("thread-count", "default pool has %d threads for %d processors", (int)d.getThreadCount(), hw);
        if (mode == 5) life_calls(d, p, 0);
    }
}
static void run_life(const Params &p) { run_life_(p); }
static void run_life_race(const Params &p) { sim::race_on(true); run_life_(p); }
static sim::Scenario s_life("pool_life", gen_life, run_life), s_life_r("pool_life_race", gen_life, run_life_race);

// ---- C03: several callers on one pool
static void gen_shared(Rng &r, Params &p, int) {
    p.set("nthr", r.chance(1, 8) ? 1 + r.below(20) : 2 + r.below(4), 1); p.set("callers", 2 + r.below(3), 2); p.set("calls", 1 + r.below(4), 1); p.set("maxn", 30, 1); p.set("cseed", (i64)(r.next() >> 1)); p.set("dflt", r.chance(1, 3), 0);
}
static void run_shared_(const Params &p) {
    int nthr = (int)p["nthr"]; sim::set_hw(nthr); sim::expect_threads_end();
    {
        std::unique_ptr<ThreadPool> own; ThreadPool *pool = nullptr; bool d = p["dflt"];
        if (!d) { own.reset(new ThreadPool((unsigned)nthr)); pool = own.get(); }
        auto body = [&](int c) { ThreadPool &pl = d ? ThreadPool::defaultPool() : *pool;
            for (int i = 0; i < p["calls"]; i++) { bool t; CallSpec cs = spec(sim::mix(p["cseed"], c * 100 + i), nthr, (int)p["maxn"]); do_call(pl, cs, t); } };
        std::vector<std::thread> th; for (int c = 1; c < p["callers"]; c++) th.emplace_back(body, c);
        body(0);
        for (auto &t : th) t.join();
    }
}
static void run_shared(const Params &p) { run_shared_(p); }
static void run_shared_race(const Params &p) { sim::race_on(true); run_shared_(p); }
static sim::Scenario s_sh("pool_shared", gen_shared, run_shared), s_sh_r("pool_shared_race", gen_shared, run_shared_race);

// ---- C04: failures
static void gen_fault(Rng &r, Params &p, int) {
    p.set("nthr", r.chance(1, 6) ? 1 + r.below(24) : 2 + r.below(6), 1); p.set("mode", r.below(4)); p.set("k", r.below(r.chance(1, 2) ? 6 : 40), 0); p.set("calls", 1 + r.below(3), 1); p.set("cseed", (i64)(r.next() >> 1)); p.set("maxn", 20, 1); p.set("two", r.chance(1, 4), 0);
}
static void run_fault(const Params &p) {
    int nthr = (int)p["nthr"], mode = (int)p["mode"]; sim::expect_threads_end();
    { ThreadPool warm(2); bool t; CallSpec c{false, 0, 5, 0, true, false}; do_call(warm, c, t); try { throw Boom(); } catch (Boom &) {} }
    u64 mark = sim::alloc_mark();
    {
        std::unique_ptr<ThreadPool> pool;
        if (mode == 0) {       // the k-th thread creation fails
            int k = nthr > 1 ? (int)(p["k"] % (nthr - 1)) : 0; bool failed = false;
            sim::arm(sim::F_CREATE, k);
            try { pool.reset(new ThreadPool((unsigned)nthr)); } catch (...) { failed = true; }
            bool fired = sim::fired(sim::F_CREATE); sim::arm(sim::F_CREATE, -1);
            if (fired && !failed) {
                // an implementation may also cope and deliver a working pool; it must then keep its promises
                if ((int)pool->getThreadCount() < 1) sim::viol("thread-count", "pool without threads");
            }
            if (failed && !fired) sim::viol("wrong-exception", "pool construction failed without a fault");
            if (failed) { pool.reset(); if (sim::live_threads() > 1) sim::viol("thread-left", "%d worker threads survive the failed construction of their pool", sim::live_threads() - 1);
                u64 b; u64 n = sim::leaked(mark, &b); if (n) sim::viol("leak", "failed pool construction leaks memory"); pool.reset(new ThreadPool((unsigned)nthr)); }
        } else if (mode == 1) { // the k-th allocation of the construction fails
            bool failed = false; sim::arm(sim::F_ALLOC, p["k"]);
            try { pool.reset(new ThreadPool((unsigned)nthr)); } catch (...) { failed = true; }
            bool fired = sim::fired(sim::F_ALLOC); sim::arm(sim::F_ALLOC, -1);
            if (failed && !fired) sim::viol("wrong-exception", "pool construction failed without a fault");
            if (failed) { if (sim::live_threads() > 1) sim::viol("thread-left", "%d worker threads survive the failed construction of their pool", sim::live_threads() - 1); pool.reset(new ThreadPool((unsigned)nthr)); }
        } else pool.reset(new ThreadPool((unsigned)nthr));
        int n = (int)pool->getThreadCount();
        auto other = [&] { for (int i = 0; i < 2; i++) { bool t; CallSpec cs = spec(sim::mix(p["cseed"], 1000 + i), n, 20); do_call(*pool, cs, t); } };
        { std::unique_ptr<std::thread> th; if (p["two"]) th.reset(new std::thread(other));
        for (int i = 0; i < p["calls"]; i++) {
            bool t = false; bool first = i == 0;
            if (mode == 2 && first) {
                CallSpec cs = spec(sim::mix(p["cseed"], i), n, (int)p["maxn"]); bool ex = false;
                sim::arm(sim::F_ALLOC, p["k"]);
                try { do_call(*pool, cs, t); } catch (std::bad_alloc &) { ex = true; } catch (...) { sim::viol("wrong-exception", "an allocation failure surfaced as another exception"); }
                bool fired = sim::fired(sim::F_ALLOC); sim::arm(sim::F_ALLOC, -1);
                if (ex && !fired) sim::viol("wrong-exception", "bad_alloc without a failed allocation");
            } else if (mode == 3 && first) {
                CallSpec cs = spec(sim::mix(p["cseed"], i), n, (int)p["maxn"], true); do_call(*pool, cs, t);
            } else { CallSpec cs = spec(sim::mix(p["cseed"], i), n, (int)p["maxn"]); do_call(*pool, cs, t); }
        }
        if (th) th->join(); }
    }
    if (sim::live_threads() > 1) sim::viol("thread-left", "worker threads are alive after their pool was destroyed");
    u64 b, f; u64 n = sim::leaked(mark, &b, &f);
    if (n) sim::viol("leak", "%llu blocks (%llu bytes) are still allocated after the failed call and the pool's destruction", (unsigned long long)n, (unsigned long long)b);
}
static sim::Scenario s_fault("pool_fault", gen_fault, run_fault);

// Scenarios on FFT, multi-scalar multiplication and multi-exponentiation over small fields and a small group.
#include "toy.hpp"
#include <omp.h>
#include <atomic>
#include <iostream>
#include <memory>
#include <new>
#include <stdexcept>
#include <thread>
#include <vector>
using std::cout; using std::endl;
#include "misc.hpp"
#include "fft.hpp"
#include "msm.hpp"
#include "multiexp.hpp"
using sim::Params; using sim::Rng; using sim::i64; using sim::u64; using sim::u8;

typedef ToyCurve<0> Crv;
static Crv crv;
void msm_w2(toy::Point &, toy::PointAffine *, uint8_t *, uint64_t, uint64_t, uint64_t); void msm_w3(toy::Point &, toy::PointAffine *, uint8_t *, uint64_t, uint64_t, uint64_t);
void msm_w4(toy::Point &, toy::PointAffine *, uint8_t *, uint64_t, uint64_t, uint64_t); void msm_w5(toy::Point &, toy::PointAffine *, uint8_t *, uint64_t, uint64_t, uint64_t);
void msm_w7(toy::Point &, toy::PointAffine *, uint8_t *, uint64_t, uint64_t, uint64_t); void msm_w8(toy::Point &, toy::PointAffine *, uint8_t *, uint64_t, uint64_t, uint64_t);
void msm_w11(toy::Point &, toy::PointAffine *, uint8_t *, uint64_t, uint64_t, uint64_t); void msm_w16(toy::Point &, toy::PointAffine *, uint8_t *, uint64_t, uint64_t, uint64_t);
static void msm_by(int w, toy::Point &r, toy::PointAffine *b, u8 *s, u64 ssz, u64 n, u64 nt) {
    switch (w) {
    case 2: return msm_w2(r, b, s, ssz, n, nt); case 3: return msm_w3(r, b, s, ssz, n, nt); case 4: return msm_w4(r, b, s, ssz, n, nt); case 5: return msm_w5(r, b, s, ssz, n, nt);
    case 7: return msm_w7(r, b, s, ssz, n, nt); case 8: return msm_w8(r, b, s, ssz, n, nt); case 11: return msm_w11(r, b, s, ssz, n, nt); case 16: return msm_w16(r, b, s, ssz, n, nt);
    default: { MSM<Crv, int> m(crv); m.run(r, b, s, ssz, n, nt); } }
}

// ---- one sum-of-products job with exactly sized inputs and a guarded result
struct Guarded { toy::Point pre, r, post; };
struct Job {
    u64 n, ssz, nx; toy::PointAffine *b; u8 *s; u64 *x; u64 want; Guarded g; u64 reqthr;
    Job() : b(0), s(0), x(0) {}
    ~Job() { sim::Quiet q; delete[] b; delete[] s; delete[] x; }
    Job(const Job &) = delete;
    void make(u64 seed, u64 n_, u64 ssz_, u64 nx_, bool visible) {
        { sim::Quiet q; Rng r(seed); n = n_; ssz = ssz_; nx = nx_; b = new toy::PointAffine[n]; s = new u8[n * ssz]; x = nx ? new u64[nx] : 0; reqthr = r.below(13);
        int style = (int)r.below(4);
        for (u64 i = 0; i < n; i++) {
            u64 v;
            switch (r.below(6)) { case 0: v = 0; break; case 1: v = i ? b[r.below(i)].v : 1; break; case 2: v = i ? toy::N(b[r.below(i)].v) : 1; break; default: v = r.next() % toy::MOD; }
            if (style == 1) v = i ? b[0].v : 5; else if (style == 2 && i % 2) v = toy::N(b[i - 1].v);
            b[i].v = v; b[i].w = oracle::mulmod(v, 3, toy::MOD);
            oracle::fill_scalar(r, s + i * ssz, ssz);
            if (style == 3 && i && r.chance(1, 2)) for (u64 k = 0; k < ssz; k++) s[i * ssz + k] = s[(i - 1) * ssz + k];
        }
        for (u64 i = 0; i < nx; i++) { u64 full = n / nx + 2; x[i] = r.chance(1, 5) ? 0 : r.chance(1, 4) ? 1 : r.below(full + 1); }
        want = oracle::msm(&b[0].v, 2, s, ssz, n, toy::MOD, nx, x);
        g.pre.v = g.post.v = 0x1111; g.pre.w = g.post.w = 0x2222; g.r.v = 0x3333; g.r.w = 0x4444; }
        if (visible) {      // the caller's own (instrumented) writes of the inputs
            for (u64 i = 0; i < n; i++) { volatile u64 v = b[i].v; b[i].v = v; v = b[i].w; b[i].w = v; }
            for (u64 i = 0; i < n * ssz; i++) { volatile u8 v = s[i]; s[i] = v; }
        }
    }
    void guard() { sim::protect(b, n * sizeof *b); sim::protect(s, n * ssz); if (x) sim::protect(x, nx * 8); sim::protect(&g.pre, sizeof g.pre); sim::protect(&g.post, sizeof g.post); }
    void check(const char *what) {
        u64 v = g.r.v, w = g.r.w; sim::Quiet q;
        if (g.pre.v != 0x1111 || g.pre.w != 0x2222 || g.post.v != 0x1111 || g.post.w != 0x2222) sim::viol("wrote-outside", "%s wrote outside the result it was given", what);
        if (v != want || w != oracle::mulmod(want, 3, toy::MOD)) sim::viol("wrong-result", "%s of %llu points with %llu-byte scalars is wrong", what, (unsigned long long)n, (unsigned long long)ssz);
        g.r.v = 0x3333; g.r.w = 0x4444;
    }
};
static int icv() { return omp_get_max_threads(); }
static void run_msm_job(Job &j, int w) { msm_by(w, j.g.r, j.b, j.s, j.ssz, j.n, j.reqthr); }
static void run_mexp_job(Job &j, ParallelMultiexp<Crv> &pm) {
    int before = icv();
    try { if (j.nx) pm.multiexp(j.g.r, j.b, j.s, j.ssz, j.n, j.nx, j.x, j.reqthr); else pm.multiexp(j.g.r, j.b, j.s, j.ssz, j.n, j.reqthr); }
    catch (...) { if (icv() != before) sim::viol("omp-threads-changed", "a failed multi-exponentiation left the OpenMP thread setting at %d instead of %d", icv(), before); throw; }
    if (icv() != before) sim::viol("omp-threads-changed", "a multi-exponentiation left the OpenMP thread setting at %d instead of %d", icv(), before);
}
static int gen_hw(Rng &r) { int x = (int)r.below(20); return x == 0 ? 1 : x < 12 ? 2 + (int)r.below(4) : x < 18 ? 2 + (int)r.below(10) : 12 + (int)r.below(53); }
static u64 gen_n(Rng &r, int tier) { switch (r.below(12)) { case 0: return r.below(2); case 1: return 2; case 2: return 3; case 3: return 4 + r.below(30); case 4: return r.below(tier ? 700 : 200); default: return 2 + r.below(14); } }
static int gap_for(u64 work) { return work < 3000 ? 1 : work < 30000 ? 5 : (int)(work / 3000); }
static int gen_win(Rng &r, int tier) { static const u8 t[] = {0, 0, 0, 0, 0, 2, 2, 3, 3, 4, 4, 5, 7, 7, 8, 8, 11, 16}; int w = t[r.below(sizeof t)]; if (w == 16 && !r.chance(1, tier ? 3 : 8)) w = 4; if (w == 11 && !r.chance(1, 3)) w = 8; return w; }

// ---- C05
static void gen_msm(Rng &r, Params &p, int tier) {
    u64 n = gen_n(r, tier), ssz = oracle::pick_ssz(r); int w = gen_win(r, tier);
    if (w >= 11 && ssz > 4) ssz = 1 + r.below(4);
    p.set("n", n, 0); p.set("ssz", ssz, 1); p.set("win", w, 0); p.set("hw", gen_hw(r), 1); p.set("cseed", (i64)(r.next() >> 1)); p.set("reps", r.chance(1, 6) ? 2 : 1, 1);
    int k = w ? w : 4; p.set("gapmin", gap_for((ssz * 8 / k + 1) * (n * 12 + (1ull << k) * 10)));
}
static void msm_(const Params &p, bool visible) {
    sim::set_hw((int)p["hw"]);
    for (int i = 0; i < p["reps"]; i++) { Job j; j.make(sim::mix(p["cseed"], i), p["n"], p["ssz"], 0, visible); if (!visible) j.guard(); run_msm_job(j, (int)p["win"]); sim::unprotect(); j.check("multi-scalar multiplication"); }
}
static void run_msm(const Params &p) { msm_(p, false); }
static void run_msm_race(const Params &p) { sim::race_on(true); msm_(p, true); }
static void gen_msm_race(Rng &r, Params &p, int tier) { gen_msm(r, p, 0); p.set("ssz", 1 + r.below(9), 1); p.set("n", r.below(14), 0); if (p["win"] > 5) p.set("win", 3); if (p["hw"] > 8) p.set("hw", 8); p.set("gapmin", 1); }
static sim::Scenario s_msm("msm", gen_msm, run_msm), s_msm_r("msm_race", gen_msm_race, run_msm_race);

// ---- C06
static void gen_mexp(Rng &r, Params &p, int tier) {
    u64 n = gen_n(r, tier), ssz = oracle::pick_ssz(r);
    p.set("n", n, 0); p.set("ssz", ssz, 1); p.set("nx", r.chance(2, 5) ? 1 + r.below(r.chance(1, 2) ? 3 : n + 3) : 0, 0); p.set("hw", r.chance(1, 8) ? 1 : 2 + r.below(8), 1); p.set("cseed", (i64)(r.next() >> 1)); p.set("reps", r.chance(1, 4) ? 2 + r.below(2) : 1, 1);
    p.set("gapmin", gap_for(ssz * (n * 14 + 200)));
}
static void mexp_(const Params &p, bool visible) {
    sim::set_hw((int)p["hw"]); omp_set_num_threads((int)p["hw"]); ParallelMultiexp<Crv> pm(crv);
    for (int i = 0; i < p["reps"]; i++) {
        Job j; j.make(sim::mix(p["cseed"], i), i ? (u64)p["n"] / 2 : p["n"], p["ssz"], i % 2 ? 0 : p["nx"], visible); if (!visible) j.guard();
        run_mexp_job(j, pm); sim::unprotect(); j.check(j.nx ? "grouped multi-exponentiation" : "multi-exponentiation"); }
}
static void run_mexp(const Params &p) { mexp_(p, false); }
static void run_mexp_race(const Params &p) { sim::race_on(true); mexp_(p, true); }
static void gen_mexp_race(Rng &r, Params &p, int tier) { gen_mexp(r, p, 0); p.set("ssz", 1 + r.below(9), 1); p.set("n", r.below(20), 0); p.set("nx", r.chance(2, 5) ? 1 + r.below(5) : 0, 0); p.set("gapmin", 1); }
static sim::Scenario s_mexp("mexp", gen_mexp, run_mexp), s_mexp_r("mexp_race", gen_mexp_race, run_mexp_race);

// ---- C07
static const u64 primes[] = {7, 17, 97, 257, 12289, 65537, 998244353, 0xFFFFFFFF00000001ull};
static const int smax[] = {1, 4, 5, 8, 12, 16, 23, 32};
template <u64 P> struct FftObj {
    typedef ToyField<P> F; typedef typename F::Element E; FFT<F> *f; u64 w; int pow;   // w: its root of unity for the whole domain
    FftObj() : f(0) {}
    ~FftObj() { delete f; }
    void build(u64 dom) { f = new FFT<F>(dom); }
    void learn(int pw) {      // check the published roots against the definition
        pow = pw; sim::Quiet q; u64 N = 1ull << pw; u64 r1 = pw ? f->root(pw, 1).v : 1; w = r1;
        if (f->root(pw, 0).v != 1) sim::viol("wrong-root", "root(%d,0) is not one", pw);
        if (pw && oracle::powmod(r1, N / 2, P) != P - 1) sim::viol("wrong-root", "root(%d,1) is not a primitive root of its domain", pw);
        u64 c = 1; for (u64 i = 0; i < N; i++) { if (f->root(pw, i).v != c) sim::viol("wrong-root", "root(%d,%llu) is not the %llu-th power of root(%d,1)", pw, (unsigned long long)i, (unsigned long long)i, pw); c = oracle::mulmod(c, r1, P); }
        for (int d = 0; d < pw; d++) for (int t = 0; t < 3; t++) { u64 M = 1ull << d, i = t == 0 ? M - 1 : t == 1 ? M / 2 : 0; if (f->root(d, i).v != oracle::powmod(r1, i << (pw - d), P)) sim::viol("wrong-root", "root(%d,%llu) is wrong", d, (unsigned long long)i); }
    }
    void transforms(u64 seed, int pw, int what, bool visible) {   // what: 0 fft, 1 fft then ifft, 2 ifft then fft
        u64 n = 1ull << pw; E *a; std::unique_ptr<u64[]> in, out; u64 wn;
        { sim::Quiet q; Rng r(seed); a = new E[n]; in.reset(new u64[n]); out.reset(new u64[n]); int st = (int)r.below(6); wn = oracle::powmod(w, 1ull << (pow - pw), P);
          for (u64 i = 0; i < n; i++) in[i] = st == 0 ? 0 : st == 1 ? (i == (seed % n)) : st == 2 ? P - 1 : r.next() % P; for (u64 i = 0; i < n; i++) a[i].v = in[i]; }
        if (visible) for (u64 i = 0; i < n; i++) { volatile u64 v = a[i].v; a[i].v = v; }
        if (what == 2) f->ifft(a, n); else f->fft(a, n);
        if (visible) for (u64 i = 0; i < n; i++) { volatile u64 v = a[i].v; (void)v; }
        { sim::Quiet q; Rng r(seed + 1); for (u64 i = 0; i < n; i++) out[i] = a[i].v; u64 tries = n <= 64 ? n : 8;
          for (u64 t = 0; t < tries; t++) { u64 k = n <= 64 ? t : r.below(n);
            u64 e = what == 2 ? oracle::dft_at(&out[0], n, wn, k, P) : oracle::dft_at(&in[0], n, wn, k, P), g = what == 2 ? in[k] : out[k];
            if (e != g) sim::viol("wrong-result", "%s transform of size %llu modulo %llu is wrong", what == 2 ? "inverse" : "forward", (unsigned long long)n, (unsigned long long)P); } }
        if (what == 1) f->ifft(a, n); else if (what == 2) f->fft(a, n);
        if (what) { sim::Quiet q; for (u64 i = 0; i < n; i++) if (a[i].v != in[i]) sim::viol("wrong-result", "%s does not restore the input (size %llu modulo %llu)", what == 1 ? "the inverse after the forward transform" : "the forward after the inverse transform", (unsigned long long)n, (unsigned long long)P); }
        { sim::Quiet q; delete[] a; in.reset(); out.reset(); }
    }
};
template <u64 P> static void fft_run(const Params &p, bool visible) {
    int dp = (int)p["dom"], sm = 0; for (int i = 0; i < 8; i++) if (primes[i] == P) sm = smax[i];
    u64 dom = (1ull << dp) + (u64)p["extra"];     // sizes between two powers count as the lower one
    FftObj<P> o; bool threw = false;
    try { o.build(dom); } catch (std::exception &) { threw = true; }
    if (dp > sm) { if (!threw) sim::viol("domain-accepted", "a domain of 2^%d was accepted for a field that has only 2^%d roots", dp, sm); return; }
    if (threw) sim::viol("domain-refused", "a domain of 2^%d was refused for a field that has 2^%d roots", dp, sm);
    o.learn(dp);
    for (int i = 0; i < p["ops"]; i++) { u64 sd = sim::mix(p["cseed"], i); int pw = i == 0 ? dp : (int)(sd % (dp + 1)); o.transforms(sd, pw, (int)((sd >> 20) % 3), visible); }
}
static void fft_dispatch(const Params &p, bool v) {
    sim::set_hw((int)p["hw"]); oracle::gmp_setup();
    switch (p["prime"]) { case 0: fft_run<7>(p, v); break; case 1: fft_run<17>(p, v); break; case 2: fft_run<97>(p, v); break; case 3: fft_run<257>(p, v); break; case 4: fft_run<12289>(p, v); break;
    case 5: fft_run<65537>(p, v); break; case 6: fft_run<998244353>(p, v); break; default: fft_run<0xFFFFFFFF00000001ull>(p, v); }
}
static void gen_fft(Rng &r, Params &p, int tier) {
    int pi = (int)r.below(8), d = r.chance(1, 12) ? smax[pi] + 1 + (int)r.below(3) : r.chance(1, tier ? 10 : 40) ? (int)r.below(13) : (int)r.below(7);
    p.set("prime", pi); p.set("dom", d, 0); p.set("extra", r.chance(1, 10) ? (1ull << d) / 2 : 0, 0); p.set("hw", gen_hw(r), 1); p.set("ops", 1 + r.below(3), 0); p.set("cseed", (i64)(r.next() >> 1)); p.set("gapmin", gap_for((1ull << (d > 12 ? 4 : d)) * 40));
}
static void gen_fft_race(Rng &r, Params &p, int tier) { gen_fft(r, p, 0); p.set("dom", r.below(6), 0); p.set("extra", 0); if (p["hw"] > 16) p.set("hw", 16); p.set("ops", 1 + r.below(2), 0); p.set("gapmin", 1); }
static void run_fft(const Params &p) { fft_dispatch(p, false); }
static void run_fft_race(const Params &p) { sim::race_on(true); fft_dispatch(p, true); }
static sim::Scenario s_fft("fft", gen_fft, run_fft), s_fft_r("fft_race", gen_fft_race, run_fft_race);

// ---- C08: several operations at once
static void gen_mix(Rng &r, Params &p, int tier) {
    p.set("hw", 1 + r.below(6), 1); p.set("thr", 2 + r.below(3), 2); p.set("ops", 1 + r.below(3), 1); p.set("cold", r.chance(1, 2), 0); p.set("mask", 1 + r.below(31)); p.set("dom", r.below(6), 0); p.set("n", 2 + r.below(12), 2); p.set("ssz", 1 + r.below(10), 1); p.set("cseed", (i64)(r.next() >> 1)); p.set("icv", 1 + r.below(4), 1);
    p.set("gapmin", r.chance(1, 2) ? 1 : 10);
}
static void mix_(const Params &p, bool visible) {
    sim::set_hw((int)p["hw"]); oracle::gmp_setup(); sim::expect_threads_end();
    typedef FftObj<12289> O; O shared; int dp = (int)p["dom"]; int mask = (int)p["mask"];
    if (!p["cold"] && (mask & 3)) { shared.build(1ull << dp); shared.learn(dp); }
    auto body = [&](int c) {
        omp_set_num_threads((int)p["icv"] + c);
        ParallelMultiexp<Crv> pm(crv); O own; O *o = &shared;
        for (int i = 0; i < p["ops"]; i++) {
            u64 sd = sim::mix(p["cseed"], c * 50 + i); int k; for (k = (int)(sd % 5); !(mask >> k & 1); k = (k + 1) % 5);
            if (k <= 1) {
                if (p["cold"]) { if (!own.f) { own.build(1ull << dp); own.learn(dp); } o = &own; }
                o->transforms(sd, (int)((sd >> 8) % (dp + 1)), (int)((sd >> 16) % 3), visible);
            } else { Job j; j.make(sd, p["n"] + (sd >> 24) % 3, p["ssz"], k == 4 ? 1 + (sd >> 30) % 3 : 0, visible);
                if (k == 2) run_msm_job(j, (sd >> 40) % 3 == 0 ? 4 : 0); else run_mexp_job(j, pm);
                j.check(k == 2 ? "concurrent multi-scalar multiplication" : "concurrent multi-exponentiation"); }
            if (icv() != (int)p["icv"] + c) sim::viol("omp-threads-changed", "another thread's work changed this thread's OpenMP thread setting");
        }
    };
    std::vector<std::thread> th; for (int c = 1; c < p["thr"]; c++) th.emplace_back(body, c);
    body(0);
    for (auto &t : th) t.join();
}
static void run_mix(const Params &p) { mix_(p, false); }
static void run_mix_race(const Params &p) { sim::race_on(true); mix_(p, true); }
static sim::Scenario s_mix("mix", gen_mix, run_mix), s_mix_r("mix_race", gen_mix, run_mix_race);

// ---- C11: inputs and thread settings, with and without failures, other threads watching
static void gen_keep(Rng &r, Params &p, int tier) {
    u64 n = gen_n(r, 0), ssz = oracle::pick_ssz(r); if (n > 40) n = 40;
    p.set("op", r.below(3)); p.set("n", n, 0); p.set("ssz", ssz, 1); p.set("win", gen_win(r, 0)); if (p["win"] > 8) p.set("win", 8); p.set("nx", 1 + r.below(4), 1); p.set("hw", 1 + r.below(6), 1); p.set("icv", 1 + r.below(9), 1); p.set("fail", r.chance(1, 3), 0); p.set("k", r.below(12), 0); p.set("watch", r.chance(1, 3), 0); p.set("cseed", (i64)(r.next() >> 1));
    p.set("gapmin", gap_for((ssz + 1) * (n * 12 + 100)));
}
static void run_keep(const Params &p) {
    sim::set_hw((int)p["hw"]); oracle::gmp_setup(); int want = (int)p["icv"]; omp_set_num_threads(want);
    std::unique_ptr<std::thread> watcher; std::atomic<bool> stop(false);
    if (p["watch"]) { watcher.reset(new std::thread([&] { omp_set_num_threads(77); while (!stop) { if (icv() != 77) sim::viol("omp-threads-changed", "another thread's OpenMP thread setting became %d", icv()); std::this_thread::yield(); } })); }
    { Job j; j.make(p["cseed"], p["n"], p["ssz"], p["op"] == 2 ? p["nx"] : 0, false); ParallelMultiexp<Crv> pm(crv);
      if (p["op"] == 0) ThreadPool::defaultPool();
      j.guard(); bool failed = false;
      if (p["fail"]) sim::arm(sim::F_ALLOC, p["k"]);
      try { if (p["op"] == 0) run_msm_job(j, (int)p["win"]); else run_mexp_job(j, pm); } catch (std::bad_alloc &) { failed = true; }
      sim::arm(sim::F_ALLOC, -1);
      if (icv() != want) sim::viol("omp-threads-changed", "the OpenMP thread setting is %d instead of %d after a %s call", icv(), want, failed ? "failed" : "successful");
      if (failed) { try { if (p["op"] == 0) run_msm_job(j, (int)p["win"]); else run_mexp_job(j, pm); } catch (...) { sim::viol("no-retry", "the call fails again without a fault"); } }
      sim::unprotect(); j.check("a sum of products"); }
    if (watcher) { stop = true; watcher->join(); }
}
static sim::Scenario s_keep("keep", gen_keep, run_keep);

// ---- C12: the k-th allocation or thread creation fails
static void gen_res(Rng &r, Params &p, int tier) {
    p.set("op", r.below(5)); p.set("n", r.below(10) ? 2 + r.below(12) : r.below(2), 0); p.set("ssz", 1 + r.below(10), 1); p.set("win", r.chance(1, 3) ? 4 : 0); p.set("nx", 1 + r.below(4), 1); p.set("hw", r.chance(1, 6) ? 1 : 2 + r.below(5), 1); p.set("mode", r.below(4)); p.set("k", r.below(r.chance(1, 2) ? 5 : 40), 0); p.set("dom", r.chance(1, 6) ? 13 + r.below(3) : r.below(7), 0); p.set("cseed", (i64)(r.next() >> 1)); p.set("gapmin", r.chance(1, 2) ? 1 : 8);
}
static void run_res(const Params &p) {
    sim::set_hw((int)p["hw"]); oracle::gmp_setup(); sim::expect_threads_end(); int op = (int)p["op"], dp = (int)p["dom"];
    omp_set_num_threads((int)p["hw"]);
    bool warm = p["mode"] < 3, create = p["mode"] == 2 || (p["mode"] == 3 && p["k"] % 2);   // mode 3: default pool not started yet
    { try { throw std::bad_alloc(); } catch (std::bad_alloc &) {} try { throw std::range_error("x"); } catch (std::range_error &) {} }
    if (warm) ThreadPool::defaultPool();
    Job j; ParallelMultiexp<Crv> pm(crv); j.make(p["cseed"], p["n"], p["ssz"], op == 2 ? p["nx"] : 0, false);
    typedef ToyField<12289> F; typedef FftObj<12289> O; FFT<F> *f = 0; bool toobig = dp > 12; O *o = 0;
    { sim::Quiet q; o = new O; }
    if (op == 4) { if (toobig) dp = 5; o->build(1ull << dp); o->learn(dp); }      // transforms
    int before = sim::live_threads(); u64 mark = sim::alloc_mark();
    for (int attempt = 0; attempt < 3; attempt++) {
        bool failed = false, range = false, thr = false;
        if (attempt == 0) { if (create) sim::arm(sim::F_CREATE, p["mode"] == 3 ? p["k"] / 2 : p["k"]); else sim::arm(sim::F_ALLOC, p["mode"] == 3 ? p["k"] / 2 : p["k"], p["cseed"] & 4 && warm ? 0x40000 : 0); }
        try {
            if (op == 0) run_msm_job(j, (int)p["win"]); else if (op == 1 || op == 2) run_mexp_job(j, pm);
            else if (op == 3) f = new FFT<F>(1ull << dp);
            else o->transforms(p["cseed"], dp, (int)(p["cseed"] % 3), false);
        } catch (std::bad_alloc &) { failed = true; } catch (std::range_error &) { range = true; } catch (std::system_error &) { failed = thr = true; }
        bool hit = sim::fired(create ? sim::F_CREATE : sim::F_ALLOC); if (attempt == 0) { hit = create ? sim::fired(sim::F_CREATE) : sim::fired(sim::F_ALLOC); sim::arm(sim::F_CREATE, -1); sim::arm(sim::F_ALLOC, -1); } else hit = false;
        if (failed && !hit) sim::viol("wrong-exception", "the call failed without a fault");
        if (range && !(op == 3 && toobig)) sim::viol("wrong-exception", "unexpected range_error");
        if (op == 3 && toobig && !range && !failed) sim::viol("domain-accepted", "a domain larger than the field supports was accepted");
        if (failed || range) {
            bool poolup = warm || sim::live_threads() > before;
            if (!poolup && sim::live_threads() > before) sim::viol("thread-left", "threads survive the failed call");
            if (warm && sim::live_threads() > before) sim::viol("thread-left", "threads survive the failed call");
            u64 b, n = sim::leaked(mark, &b);
            if (n && (warm || !poolup)) sim::viol("leak", "%llu blocks (%llu bytes) are still allocated after the call failed", (unsigned long long)n, (unsigned long long)b);
            if (!warm) { warm = true; ThreadPool::defaultPool(); before = sim::live_threads(); mark = sim::alloc_mark(); }
            continue;
        }
        if (op <= 2) j.check("a sum of products");
        if (op == 3) { O t; t.f = f; f = 0; t.learn(dp); t.transforms(p["cseed"], dp, 1, false); }
        if (!warm) { warm = true; before = sim::live_threads(); mark = sim::alloc_mark(); }
        u64 b, n = sim::leaked(mark, &b);
        if (n) sim::viol("leak", "%llu blocks (%llu bytes) are still allocated after the call", (unsigned long long)n, (unsigned long long)b);
        if (attempt) break;
    }
    delete o;
}
static sim::Scenario s_res("res", gen_res, run_res);

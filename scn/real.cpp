// C05-C07 over the real groups of bn128 and the generated fields (assembly or portable), against GMP.
#include "rt.h"
#include "fieldaux.h"
#include "fieldwrap.h"
#include "realref.h"
#include "alt_bn128.hpp"
#include "fs.hpp"
#include "fl.hpp"
#include "fft.hpp"
#include "oracle.h"
#include <stdexcept>
#include <memory>
using sim::Params; using sim::Rng; typedef uint64_t u64; typedef uint8_t u8; typedef sim::i64 i64;
typedef AltBn128::Engine Eng;
template <class C> static void sum_job(C &g, int grp, const Params &p, u64 seed) {
    typedef typename C::Point P; typedef typename C::PointAffine A; u64 n = p["n"], ssz = p["ssz"], nx = p["nx"]; int kind = (int)p["kind"]; if (kind == 2 && n == 0) n = 1;
    std::unique_ptr<int[]> idx; std::unique_ptr<bool[]> neg; std::unique_ptr<A[]> b; std::unique_ptr<u8[]> s; std::unique_ptr<u64[]> x; struct { P pre, r, post; } G; unsigned thr;
    { sim::Quiet q; Rng r(seed); idx.reset(new int[n]); neg.reset(new bool[n]); b.reset(new A[n]); s.reset(new u8[n * ssz]); x.reset(new u64[nx ? nx : 1]); thr = (unsigned)r.below(9); int style = (int)r.below(5);
      for (u64 i = 0; i < n; i++) { idx[i] = r.chance(1, 8) ? 0 : (int)r.below(realref::npoints()); neg[i] = r.chance(1, 4); if (i && style == 1) { idx[i] = idx[0]; neg[i] = neg[0]; } if (i && style == 2 && i % 2) { idx[i] = idx[i - 1]; neg[i] = !neg[i - 1]; }
          realref::point(grp, idx[i], neg[i], (u64 *)&b[i]); oracle::fill_scalar(r, s.get() + i * ssz, ssz); if (i && style >= 2 && r.chance(1, 2)) for (u64 k = 0; k < ssz; k++) s[i * ssz + k] = s[(i - 1) * ssz + k]; }
      for (u64 i = 0; i < nx; i++) x[i] = r.chance(1, 5) ? 0 : r.below(n / nx + 3); memset((void *)&G, 0x5A, sizeof G); }
    sim::protect(b.get(), n * sizeof(A)); sim::protect(s.get(), n * ssz); sim::protect(&G.pre, sizeof(P)); sim::protect(&G.post, sizeof(P)); if (nx) sim::protect(x.get(), nx * 8);
    if (kind == 0) g.multiMulByScalarMSM(G.r, b.get(), s.get(), (unsigned)ssz, (unsigned)n, thr); else if (kind == 1) g.multiMulByScalar(G.r, b.get(), s.get(), (unsigned)ssz, (unsigned)n, thr); else g.multiMulByScalar(G.r, b.get(), s.get(), (unsigned)ssz, (unsigned)n, (uint32_t)nx, x.get(), thr);
    sim::unprotect(); sim::Quiet q; char why[100];
    if (!realref::sum_is(grp, idx.get(), neg.get(), s.get(), ssz, n, kind == 2 ? nx : 0, x.get(), (u64 *)&G.r, why)) sim::viol("wrong-result", "%s of %llu points of G%d with %llu-byte scalars: %s", kind == 0 ? "multi-scalar multiplication" : "multi-exponentiation", (unsigned long long)n, grp + 1, (unsigned long long)ssz, why);
    for (size_t i = 0; i < sizeof(G.r); i += 8) sim::obs(*(u64 *)((u8 *)&G.r + i));
}
static void gen_sum(Rng &r, Params &p, int tier, int kind) {
    bool big = r.chance(1, tier ? 8 : 20); int grp = r.chance(1, 3); p.set("grp", grp, 0); p.set("kind", kind); u64 n = r.below(12) == 0 ? r.below(2) : 2 + r.below(big && !grp ? 6 : grp ? 5 : 10); u64 ssz = big ? 1 + r.below(40) : 1 + r.below(grp ? 3 : 5);
    p.set("n", n, 0); p.set("ssz", ssz, 1); p.set("nx", kind == 2 ? 1 + r.below(n ? n : 1) : 0); p.set("hw", r.chance(1, 6) ? 1 : 2 + r.below(5), 1); p.set("reps", r.chance(1, 8) ? 2 : 1, 1); p.set("own", r.chance(1, 3), 0); p.set("cseed", (i64)(r.next() >> 1));
    p.set("gapmin", (grp ? 4 : 1) * (10 + (i64)(n * ssz * 60)));
}
static void gen_msm(Rng &r, Params &p, int tier) { gen_sum(r, p, tier, 0); }
static void gen_mexp(Rng &r, Params &p, int tier) { gen_sum(r, p, tier, r.chance(1, 3) ? 2 : 1); }
static void run_sum(const Params &p) {
    sim::set_hw((int)p["hw"]); sim::asm_config(0, 0); std::unique_ptr<Eng> own; if (p["own"]) own.reset(new Eng); Eng &e = own ? *own : Eng::engine;
    for (int i = 0; i < p["reps"]; i++) { u64 sd = sim::mix(p["cseed"], i); if (p["grp"]) sum_job(e.g2, 1, p, sd); else sum_job(e.g1, 0, p, sd); }
}
static sim::Scenario s_msm("real_msm", gen_msm, run_sum), s_mexp("real_mexp", gen_mexp, run_sum);
// ---- transforms
template <class F> static void fft_job(int fi, const Params &p) {
    typedef typename F::Element E; int d = (int)p["dom"], ad = realref::two_adicity(fi); std::unique_ptr<FFT<F>> f; bool thrown = false;
    try { f.reset(new FFT<F>(1ull << d, (unsigned)p["thr"])); } catch (const std::exception &) { thrown = true; }
    if (thrown != (d > ad)) sim::viol("wrong-domain", "a transform of 2^%d over a field with roots of unity up to 2^%d was %s", d, ad, thrown ? "refused" : "accepted");
    if (thrown) return;
    u64 n = 1ull << d; E w; { E &x = f->root(d, n > 1 ? 1 : 0); sim::Quiet q; w = x; if (!realref::is_primitive(fi, (u64 *)&w, n)) sim::viol("wrong-root", "root(%d, 1) is no primitive root of unity", d); }
    for (u64 i = 0; i < n; i++) { E &x = f->root(d, i); sim::Quiet q; if (!realref::is_power(fi, (u64 *)&x, (u64 *)&w, i)) sim::viol("wrong-root", "root(%d, %llu) is not that power", d, (unsigned long long)i); }
    for (int k = 0; k < p["ops"]; k++) {
        Rng r(sim::mix(p["cseed"], k)); int e = (int)r.below(d + 1); u64 m = 1ull << e; std::unique_ptr<E[]> a, b; E wm; { sim::Quiet q; a.reset(new E[m]); b.reset(new E[m]); for (u64 i = 0; i < m; i++) { realref::rnd(r, fi, (u64 *)&a[i]); b[i] = a[i]; } wm = f->root(e, m > 1 ? 1 : 0); }
        int what = (int)r.below(3);
        if (what < 2) { f->fft(a.get(), m); { sim::Quiet q; for (u64 i = 0; i < m; i++) if (m <= 16 || r.chance(1, m / 8)) if (!realref::dft_is(fi, (u64 *)b.get(), (u64 *)a.get(), (u64 *)&wm, m, i)) sim::viol("wrong-result", "output %llu of a transform of %llu elements is wrong", (unsigned long long)i, (unsigned long long)m); } if (what == 1) f->ifft(a.get(), m); }
        else { f->ifft(a.get(), m); f->fft(a.get(), m); }
        if (what) { sim::Quiet q; if (memcmp((void *)a.get(), (void *)b.get(), m * sizeof(E))) sim::viol("wrong-result", "a transform of %llu elements and its inverse do not restore them", (unsigned long long)m); }
        { sim::Quiet q; for (u64 i = 0; i < m * sizeof(E) / 8; i++) sim::obs(((u64 *)a.get())[i]); }
    }
}
static void gen_fft(Rng &r, Params &p, int tier) {
    int fi = (int)r.below(6); fi = fi < 3 ? 0 : fi - 2; int ad = realref::two_adicity(fi); int d = r.chance(1, 30) ? ad + 1 + (int)r.below(2) : (int)r.below(tier ? 8 : 6); if (d > 12 && d <= ad) d = 5; if (d > 40) d = 40;
    p.set("field", fi); p.set("dom", d, 0); p.set("thr", r.below(9), 0); p.set("hw", r.chance(1, 6) ? 1 : 2 + r.below(8), 1); p.set("ops", 1 + r.below(3), 0); p.set("cseed", (i64)(r.next() >> 1)); p.set("gapmin", 10 + (d < 12 ? (20 << d) : 10));
}
static void run_fft(const Params &p) { sim::set_hw((int)p["hw"]); sim::asm_config(0, 0); switch (p["field"]) { case 0: fft_job<RawFr>(0, p); break; case 1: fft_job<RawFq>(1, p); break; case 2: fft_job<RawFs>(2, p); break; default: fft_job<RawFl>(3, p); } }
static sim::Scenario s_fft("real_fft", gen_fft, run_fft);

// A user's translation unit: objects of the library made and used by static constructors, and again in main and in static destructors.
#include "rt.h"
#include "startup.h"
#include "alt_bn128.hpp"
#include "fs.hpp"
#include "fl.hpp"
#include "fft.hpp"
#include "naf.hpp"
#include "splitparstr.hpp"
#include <memory>
#include <string>
using sim::Rng; typedef uint64_t u64; typedef uint8_t u8;
namespace {
struct Ctx { startup::Out *o; Rng r; Ctx(startup::Out *o_, u64 s) : o(o_), r(s) {}
    void out(u64 v) { sim::Quiet q; o->h = sim::mix(o->h, v); o->n++; }
    void out(const void *p, size_t n) { sim::Quiet q; for (size_t i = 0; i < n; i++) o->h = sim::mix(o->h, ((const u8 *)p)[i]); o->n++; }
    void out(const std::string &s) { out(s.data(), s.size()); }
    std::string dec() { sim::Quiet q; std::string s; int n = 1 + (int)r.below(90); s += '1' + r.below(9); while (n--) s += '0' + r.below(10); return s; }
    void scalar(u8 *s, int n) { sim::Quiet q; int k = (int)r.below(4); for (int i = 0; i < n; i++) s[i] = k == 0 ? 0xFF : (u8)r.next(); }
};
template <class F> void raw(Ctx &c, F &f) {
    typename F::Element a, b, x; f.fromString(a, c.dec()); f.set(b, (int)c.r.range(-1000, 1000)); f.mul(x, a, b); c.out(f.toString(x)); f.inv(x, a); f.mul(x, x, a); c.out((u64)f.eq(x, f.one())); f.sub(x, f.negOne(), a); c.out(f.toString(x, 16));
    f.fromUI(b, c.r.next()); f.div(x, b, a); c.out(f.toString(x)); u8 s[4]; c.scalar(s, 4); f.exp(x, a, s, 4); c.out(f.toString(x)); c.out((u64)f.isZero(f.zero()) + 2 * f.isZero(f.one()));
    u8 buf[256]; { sim::Quiet q; for (u8 &z : buf) z = 0; } c.out((u64)f.toRprBE(x, buf, (int)sizeof a)); c.out(buf, (int)sizeof a); mpz_t m; mpz_init(m); f.toMpz(m, x); f.fromMpz(b, m); mpz_clear(m); c.out((u64)f.eq(b, x));
}
template <class F> void tower(Ctx &c, F &f) {
    typename F::Element a, x; f.copy(a, f.one()); int n = 1 + (int)c.r.below(6); for (int i = 0; i < n; i++) f.add(a, a, f.one()); f.sub(a, a, f.negOne()); f.square(x, a); f.mul(x, x, a); c.out(f.toString(x)); f.inv(x, a); c.out(f.toString(x)); f.neg(x, x); f.add(x, x, f.zero()); c.out((u64)f.eq(x, f.zero()) + 2 * f.isOne(f.one())); c.out(f.toString(x));
}
template <class G> void curve(Ctx &c, G &g, int len) {
    typename G::Point p, q; typename G::PointAffine a; u8 s[32]; c.scalar(s, len); g.mulByScalar(p, g.oneAffine(), s, len); c.out(g.toString(p)); g.dbl(q, p); g.add(q, q, g.oneAffine()); c.out(g.toString(q)); g.copy(a, q); g.sub(q, p, a); c.out(g.toString(q)); c.out((u64)g.isZero(g.zero()) + 2 * g.eq(p, q));
}
template <class G> void multi(Ctx &c, G &g, bool msm) {
    typename G::PointAffine b[4]; typename G::Point p, x; g.copy(p, g.one()); for (auto &e : b) { g.copy(e, p); g.dbl(p, p); } u8 s[16]; c.scalar(s, 16); int n = (int)c.r.below(5); if (msm) g.multiMulByScalarMSM(x, b, s, 4, n, 2); else g.multiMulByScalar(x, b, s, 4, n, 2); c.out(g.toString(x));
}
void pool_use(Ctx &c, ThreadPool &p) { int n = (int)c.r.below(40); std::unique_ptr<int[]> v(new int[n + 1]); for (int i = 0; i <= n; i++) v[i] = 0; p.parallelFor(0, n, [&](int b, int e, int) { for (int i = b; i < e; i++) v[i]++; }); u64 t = 0; for (int i = 0; i < n; i++) t += v[i] == 1; c.out(t == (u64)n); }
void init_tagged(Ctx &c);
#define TAGGED(X) { X##_init(); X##Element a, b, x; X##_str2element(&a, c.dec().c_str()); b.type = X##_SHORT; b.shortVal = (int)c.r.range(-500, 500); X##_mul(&x, &a, &b); X##_add(&x, &x, &a); X##_div(&x, &x, &a); char *s = X##_element2str(&x); c.out(std::string(s)); free(s); b.shortVal = 3; X##_pow(&x, &a, &b); X##_inv(&x, &x); X##_idiv(&x, &x, &b); s = X##_element2str(&x); c.out(std::string(s)); free(s); }
}
bool Fr_init(); bool Fq_init(); bool Fs_init(); bool Fl_init();
namespace {
typedef AltBn128::Engine Eng;
void one(Ctx &c, bool pools) {
    switch (c.r.below(pools ? 17 : 13)) {
    case 0: { RawFr f; raw(c, f); break; } case 1: { RawFq f; raw(c, f); break; } case 2: { RawFs f; raw(c, f); break; } case 3: { RawFl f; raw(c, f); break; }
    case 4: switch (c.r.below(4)) { case 0: TAGGED(Fr) break; case 1: TAGGED(Fq) break; case 2: TAGGED(Fs) break; default: TAGGED(Fl) } break;
    case 5: { F2Field<RawFq> f("-1"); tower(c, f); break; } case 6: { F2Field<RawFs> f("7"); tower(c, f); break; } case 7: { F6Field<F2Field<RawFq>> f; tower(c, f); break; } case 8: { F12Field<F6Field<F2Field<RawFq>>> f; tower(c, f); break; }
    case 9: { RawFq f; Curve<RawFq> g(f, "0", "3", "1", "2"); curve(c, g, 1 + (int)c.r.below(8)); break; }
    case 10: { std::unique_ptr<Eng> e(new Eng); if (c.r.chance(1, 3)) curve(c, e->g2, 1); else curve(c, e->g1, 2); break; }
    case 11: { u8 s[9], n[11 * 8]; c.scalar(s, 9); { sim::Quiet q; for (u8 &x : n) x = 9; } buildNaf(n, s, 9); c.out(n, sizeof n); break; }
    case 12: { auto v = splitParStr("(1,2,(3,4),5)"); c.out((u64)v.size()); for (auto &s : v) c.out(s); break; }
    case 13: { ThreadPool p(1 + (unsigned)c.r.below(3)); pool_use(c, p); break; } case 14: pool_use(c, ThreadPool::defaultPool()); break;
    case 15: { RawFq f; Curve<RawFq> g(f, "0", "3", "1", "2"); multi(c, g, true); break; }
    default: { RawFq f; Curve<RawFq> g(f, "0", "3", "1", "2"); multi(c, g, false); }
    }
}
void late(Ctx &c) {       // the library's own objects: main only
    Eng &e = Eng::engine; switch (c.r.below(9)) { case 0: raw(c, RawFr::field); break; case 1: raw(c, RawFq::field); break; case 2: raw(c, RawFs::field); break; case 3: tower(c, AltBn128::F12); break; case 4: curve(c, AltBn128::G1, 2); break; case 5: curve(c, e.g1, 3); break; case 6: curve(c, e.g2, 1); break; case 7: multi(c, e.g1, true); break;
    default: { FFT<RawFr> f(8, 2); RawFr::Element a[8]; for (int i = 0; i < 8; i++) RawFr::field.set(a[i], i + 2); f.fft(a, 8); c.out(a, sizeof a); f.ifft(a, 8); c.out(a, sizeof a); } }
}
}
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(user_work_, USER)(startup::Out *o, u64 seed, int n, int what) { Ctx c(o, seed); for (int i = 0; i < n; i++) if (what == 2) late(c); else one(c, what == 1); }
// what a user's globals look like
static F2Field<RawFq> own_f2("-1"); static RawFs own_fs; static RawFq own_fq; static Curve<RawFq> own_g(own_fq, "0", "3", "1", "2");
void CAT(user_globals_, USER)(startup::Out *o, u64 seed) { Ctx c(o, seed); switch (c.r.below(4)) { case 0: tower(c, own_f2); break; case 1: raw(c, own_fs); break; case 2: raw(c, own_fq); break; default: curve(c, own_g, 2); } }
struct User { User() { startup::constructed(USERN); } ~User() { startup::destroyed(USERN); } };
static User user;

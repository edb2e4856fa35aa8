// C10: operations of the generated fields (assembly or portable), extension fields and curves run in several threads at once.
// Every operation of every thread is first run alone in a process of its own; the concurrent results must be equal.
#include "rt.h"
#include "fieldaux.h"
#include "fieldwrap.h"
#include "alt_bn128.hpp"
#include "fs.hpp"
#include "fl.hpp"
#include "fft.hpp"
#include <string>
#include <thread>
#include <vector>
using sim::Params; using sim::Rng; typedef uint64_t u64; typedef uint8_t u8;

struct Ctx { Rng r, v, m; fieldaux::Slot *o; bool priv, over = false; Ctx(u64 s, u64 vs, fieldaux::Slot *o_) : r(s), v(vs), m(sim::mix(s, vs)), o(o_) {}       // r draws the operation, v its operands, m what must not matter
    void out(const void *p, size_t n) { sim::Quiet q; const u8 *b = (const u8 *)p; for (size_t i = 0; i < n; i += 8) { u64 v = 0; memcpy(&v, b + i, n - i < 8 ? n - i : 8); o->h = sim::mix(o->h, v); } o->n += n; }
    void out(u64 v) { o->h = sim::mix(o->h, v); o->n += 8; }
    void out(const std::string &s) { out(s.data(), s.size()); out((u64)s.size()); }
};
// ---- operands: pools shared by all threads (read only), filled by the harness without calling the code under test
template <class E> struct Pool { static E *p; static int n; static E *nz; static int nnz; };
template <class E> E *Pool<E>::p; template <class E> int Pool<E>::n; template <class E> E *Pool<E>::nz; template <class E> int Pool<E>::nnz;
template <class E> static E &pick(Ctx &c) { sim::Quiet q; return Pool<E>::p[c.v.below(Pool<E>::n)]; }
template <class E> static E &pick_nz(Ctx &c) { sim::Quiet q; return Pool<E>::nz[c.v.below(Pool<E>::nnz)]; }
template <class E> static void scramble(E &e) { sim::Quiet q; memset((void *)&e, 0x5A, sizeof e); }
static struct { void *p; size_t n; } regd[64]; static int nregd; static void reg(void *p, size_t n) { regd[nregd].p = p; regd[nregd++].n = n; }
static u8 *scal; static const int NSCAL = 96;      // shared scalar bytes

#define FIELDS(M) M(Fr) M(Fq) M(Fs) M(Fl)
#define EXT(X) void X##_toMpz(mpz_t r, P##X##Element pE); void X##_fromMpz(P##X##Element pE, mpz_t v);
FIELDS(EXT)
template <class RawX> struct Tag;
#define TAG(X) template <> struct Tag<Raw##X> { typedef X##Element E; static const int N = X##_N64; static u64 *q() { return X##_q.longVal; } \
    typedef void (*Bin)(E *, E *, E *); typedef void (*Un)(E *, E *); \
    static Bin bin(int k) { static const Bin t[] = {X##_add, X##_sub, X##_mul, X##_band, X##_bor, X##_bxor, X##_shl, X##_shr, X##_eq, X##_neq, X##_lt, X##_gt, X##_leq, X##_geq, X##_land, X##_lor, X##_pow, X##_idiv, X##_mod, X##_div}; return t[k]; } \
    static Un un(int k) { static const Un t[] = {X##_neg, X##_square, X##_bnot, X##_lnot, X##_toNormal, X##_toLongNormal, X##_toMontgomery, (Un)X##_copy, X##_inv}; return t[k]; } \
    static void copyn(E *r, E *a, int n) { X##_copyn(r, a, n); } static int isTrue(E *a) { return X##_isTrue(a); } static int toInt(E *a) { return X##_toInt(a); } \
    static void str(E *r, const char *s) { X##_str2element(r, s); } static char *str(E *a) { return X##_element2str(a); } static void toMpz(mpz_t r, E *a) { X##_toMpz(r, a); } static void fromMpz(E *r, mpz_t a) { X##_fromMpz(r, a); } \
    static bool init() { return X##_init(); } };
#define INIT(X) bool X##_init();
FIELDS(INIT)
FIELDS(TAG)
static const int NBIN = 20, NBIN_ANY = 17, NUN = 9;

template <class RawX> struct Base {      // one generated field
    typedef Tag<RawX> T; typedef typename T::E E; typedef typename RawX::Element R; static const int N = T::N;
    static void fill(Rng &r) {
        const u64 *q = T::q(); int n = 10; E *e = new E[n + 6]; R *w = new R[8];
        for (int i = 0; i < n + 6; i++) { u64 v[N]; memset(&e[i], 0x33, sizeof(E)); bool nz = i >= n; int k = (int)r.below(5);
            if (k <= 1) { int s = fieldaux::rnd_short(r); if (nz && !s) s = 1 + (int)r.below(1000); e[i].shortVal = s; e[i].type = k == 0 ? 0 : 0x40000000;
                fieldaux::small_mod(v, s, q, N); fieldaux::to_mont(e[i].longVal, v, q, N); if (k == 0 && r.chance(1, 2)) memset(e[i].longVal, 0, sizeof v); }
            else { do { fieldaux::rnd_mod(r, v, q, N); bool z = true; for (int j = 0; j < N; j++) z = z && !v[j]; if (!nz || !z) break; } while (1); e[i].shortVal = 0; e[i].type = k == 2 ? 0x80000000 : 0xC0000000; memcpy(e[i].longVal, v, sizeof v); if (k == 4) { e[i].type = 0x80000000; } }
        }
        for (int i = 1; i < n + 6; i++) if (i != n && (e[i - 1].type & 0x80000000) && r.chance(1, 4)) { e[i] = e[i - 1]; alike(r, e[i].longVal, q); }
        Pool<E>::p = e; Pool<E>::n = n; Pool<E>::nz = e + n; Pool<E>::nnz = 6;
        for (int i = 0; i < 8; i++) for (;;) { fieldaux::rnd_mod(r, w[i].v, q, N); bool z = true; for (int j = 0; j < N; j++) z = z && !w[i].v[j]; if (i < 4 || !z) break; }
        for (int i = 1; i < 8; i++) if (i != 4 && r.chance(1, 4)) { w[i] = w[i - 1]; alike(r, w[i].v, q); }
        Pool<R>::p = w; Pool<R>::n = 8; Pool<R>::nz = w + 4; Pool<R>::nnz = 4;
        reg(e, sizeof(E) * (n + 6)); reg(w, sizeof(R) * 8);
    }
    static void reg(void *p, size_t n) { ::reg(p, n); }
    static void alike(Rng &r, u64 *v, const u64 *q) { int j = (int)r.below(N); u64 o = v[j]; v[j] = r.chance(1, 2) ? o ^ (1ull << r.below(64)) : r.next(); bool z = true, lt = false; for (int k = 0; k < N; k++) z = z && !v[k]; for (int k = N - 1; k >= 0; k--) if (v[k] != q[k]) { lt = v[k] < q[k]; break; } if (z || !lt) v[j] = o; }       // the same but for one word
    static void outE(Ctx &c, E &e) { sim::Quiet q; if (e.type & 0x80000000) { c.out(e.type); c.out(e.longVal, sizeof e.longVal); } else { c.out(e.type & 0x40000000 ? 1 : 0); c.out((u64)(u32_)e.shortVal); if (e.type & 0x40000000) c.out(e.longVal, sizeof e.longVal); } }
    typedef uint32_t u32_;
    static void tagged(Ctx &c) {
        E r; scramble(r); int k = (int)c.r.below(11);
        if (k < 5) { int op = (int)c.r.below(NBIN); E &a = pick<E>(c); E &b = op >= NBIN_ANY ? pick_nz<E>(c) : pick<E>(c);
            if (c.r.chance(1, 5)) { { sim::Quiet q; r = a; } T::bin(op)(&r, &r, &b); } else if (c.r.chance(1, 8) ) { { sim::Quiet q; r = b; } T::bin(op)(&r, &a, &r); } else T::bin(op)(&r, &a, &b); outE(c, r); }
        else if (k < 7) { int op = (int)c.r.below(NUN); E &a = op == 8 ? pick_nz<E>(c) : pick<E>(c); if (c.r.chance(1, 4)) { { sim::Quiet q; r = a; } T::un(op)(&r, &r); } else T::un(op)(&r, &a); outE(c, r); }
        else if (k == 7) { int n = 1 + (int)c.r.below(4); E t[4]; for (int i = 0; i < 4; i++) scramble(t[i]); T::copyn(t, Pool<E>::p + c.v.below(6), n); for (int i = 0; i < n; i++) outE(c, t[i]); }
        else if (k == 8) { E &a = pick<E>(c); c.out((u64)T::isTrue(&a)); E s; { sim::Quiet q; s = a; if (s.type & 0x80000000) { memset(s.longVal, 0, sizeof s.longVal); s.longVal[0] = c.r.below(1u << 31); s.type = 0x80000000; } } c.out((u64)T::toInt(&s)); }
        else if (k == 9) { E &a = pick<E>(c); char *s = T::str(&a); std::string cp; { sim::Quiet q; cp = s; } free(s); c.out(cp); T::str(&r, cp.c_str()); outE(c, r); }
        else { E &a = pick<E>(c); mpz_t z; mpz_init(z); T::toMpz(z, &a); T::fromMpz(&r, z); mpz_clear(z); outE(c, r); }
    }
    static void raw(Ctx &c) {
        if (c.r.chance(1, 6)) { RawX f; rawOn(c, f); } else if (c.r.chance(1, 12)) { c.out((u64)T::init()); rawOn(c, RawX::field); } else rawOn(c, RawX::field);
    }
    static void rawOn(Ctx &c, RawX &f) {
        R r; scramble(r); R &a = pick<R>(c), &b = pick<R>(c), &z = pick_nz<R>(c); int iv = c.v.chance(1, 2) ? (int)c.v.range(-40, 40) : fieldaux::rnd_short(c.v); int k = (int)c.r.below(25);
        switch (k) {
        case 0: f.add(r, a, b); break; case 1: f.sub(r, a, b); break; case 2: f.mul(r, a, b); break; case 3: f.neg(r, a); break; case 4: f.square(r, a); break;
        case 5: f.inv(r, z); break; case 6: f.div(r, a, z); break; case 7: f.mul1(r, a, c.v.next() >> c.v.below(64)); break; case 8: f.copy(r, a); break;
        case 9: { R x, y; f.copy(x, a); f.copy(y, b); f.swap(x, y); c.out(&x, sizeof x); c.out(&y, sizeof y); f.copy(r, a); break; }
        case 10: f.toMontgomery(r, a); break; case 11: f.fromMontgomery(r, a); break; case 12: c.out((u64)f.eq(a, b)); f.copy(r, a); break; case 13: c.out((u64)f.isZero(a)); f.copy(r, b); break;
        case 14: { std::string s = f.toString(a, c.r.chance(1, 3) ? 16 : 10); c.out(s); f.copy(r, a); break; }
        case 15: { std::string s; { sim::Quiet q; s = "123456789012345678901234567890"; s[3] = '0' + c.v.below(10); s[0] = '0' + c.v.below(10); s.resize(1 + c.v.below(30)); } f.fromString(r, s, c.r.chance(1, 3) ? 16 : 10); break; }
        case 16: f.fromUI(r, c.v.next() >> c.v.below(64)); break; case 17: f.set(r, iv); break;
        case 18: { mpz_t m; mpz_init(m); f.toMpz(m, a); f.fromMpz(r, m); mpz_clear(m); break; }
        case 19: { u8 buf[N * 8 + 8]; { sim::Quiet q; memset(buf, (int)sim::steps(), sizeof buf); } c.out((u64)f.toRprBE(a, buf, N * 8)); c.out(buf, N * 8); f.copy(r, a); break; }
        case 20: { u8 buf[N * 8 + 8]; { sim::Quiet q; memcpy(buf, &a, N * 8); memset(buf + N * 8, 0, 8); } c.out((u64)f.fromRprBE(r, buf, N * 8)); break; }
        case 21: { R x = f.add(a, b); f.copy(r, x); x = f.mul(r, iv); c.out(&x, sizeof x); x = f.sub(iv, b); f.add(r, x, f.square(f.neg(a))); break; }
        case 22: f.exp(r, a, scal + c.v.below(64), 1 + c.r.below(3)); break;
        case 23: c.out((u64)f.bytes()); f.add(r, f.one(), f.negOne()); c.out(&r, sizeof r); f.add(r, f.zero(), a); break;
        default: { R x; f.copy(x, a); f.add(x, x, b); f.mul(x, x, x); f.sub(r, x, a); f.mul(r, r, b); break; }
        }
        c.out(&r, sizeof r);
    }
};
template <class E> static void fill_composite(Rng &r, const u64 *q, int n64) {    // an element made of residues of the base field
    int n = 6; E *e = new E[n]; size_t w = sizeof(E) / (8 * n64);
    for (int i = 0; i < n; i++) for (size_t k = 0; k < w; k++) fieldaux::rnd_mod(r, (u64 *)&e[i] + k * n64, q, n64);
    if (r.chance(1, 2)) memset((void *)&e[0], 0, sizeof(E));
    Pool<E>::p = e; Pool<E>::n = n; Pool<E>::nz = e + 2; Pool<E>::nnz = n - 2;
    for (int i = 2; i < n; i++) ((u64 *)&e[i])[0] |= 1;     // (still below q: its lowest bit is set)
    reg(e, sizeof(E) * n);
}
// ---- extension fields
typedef AltBn128::Engine Eng;
template <class F> static void ext_common(Ctx &c, F &f, int k) {
    typedef typename F::Element E; E r; scramble(r); E &a = pick<E>(c), &b = pick<E>(c), &z = pick_nz<E>(c);
    switch (k) {
    case 0: f.add(r, a, b); break; case 1: f.sub(r, a, b); break; case 2: case 3: f.mul(r, a, b); break; case 4: f.neg(r, a); break; case 5: f.square(r, a); break; case 6: f.inv(r, z); break; case 7: f.div(r, a, z); break;
    case 8: f.copy(r, a); break; case 9: c.out((u64)f.isZero(a)); f.copy(r, a); break; case 10: c.out((u64)f.isOne(a)); f.copy(r, f.one()); break; case 11: c.out((u64)f.eq(a, b)); f.copy(r, f.zero()); break;
    case 12: { std::string s = f.toString(a, c.r.chance(1, 4) ? 16 : 10); c.out(s); f.copy(r, f.negOne()); break; }
    case 13: { f.copy(r, a); f.mul(r, r, r); f.add(r, r, b); break; }
    case 14: { f.copy(r, a); f.square(r, r); break; }
    default: { std::string s = f.toString(a); f.fromString(r, s); break; }
    }
    c.out(&r, sizeof r);
}
typedef F2Field<RawFr> F2r; typedef F2Field<RawFs> F2s;
static F2r f2r_long("5"), f2r_one("1"), f2r_zero("0"); static F2s f2s_long("7");
template <class F> static void f2_more(Ctx &c, F &f) { typedef typename F::Element E; E r; scramble(r); E &a = pick<E>(c); typename F::BaseElement &s = pick<typename F::BaseElement>(c);
    switch (c.r.below(4)) { case 0: f.conjugate(r, a); break; case 1: f.mulScalar(r, a, s); break; case 2: f.mulXi(r, a); break; default: f.dbl(r, a); } c.out(&r, sizeof r); }
template <class F> static void ext2(Ctx &c, F &f) { int k = (int)c.r.below(20); if (k < 16) ext_common(c, f, k); else f2_more(c, f); }
static void ext(Ctx &c) {
    Eng &e = Eng::engine; int which = (int)c.r.below(12);
    if (which < 3) ext2(c, e.f2); else if (which == 3) ext2(c, f2r_long); else if (which == 4) ext2(c, c.r.chance(1, 2) ? f2r_one : f2r_zero); else if (which == 5) ext2(c, f2s_long);
    else if (which < 9) { typedef Eng::F6 F; F &f = e.f6; int k = (int)c.r.below(21); if (k < 16) { ext_common(c, f, k == 15 ? 14 : k); return; }
        F::Element r; scramble(r); F::Element &a = pick<F::Element>(c); switch (k) { case 16: f.mulTau(r, a); break; case 17: f.mulScalar(r, a, pick<Eng::F2::Element>(c)); break; case 18: f.mulGFP(r, a, pick<RawFq::Element>(c)); break; case 19: f.Frobenius(r, a); break; default: f.FrobeniusP2(r, a); } c.out(&r, sizeof r); }
    else { typedef Eng::F12 F; F &f = e.f12; int k = (int)c.r.below(21); if (k < 16) { ext_common(c, f, k == 15 ? 5 : k); return; }
        F::Element r; scramble(r); F::Element &a = pick<F::Element>(c); switch (k) { case 16: f.conjugate(r, a); break; case 17: f.mulScalar(r, a, pick<Eng::F6::Element>(c)); break; case 18: f.exp(r, a, scal + c.v.below(64), 1); break; case 19: f.Frobenius(r, a); break; default: f.FrobeniusP2(r, a); } c.out(&r, sizeof r); }
}
// ---- curves
typedef Curve<RawFr> Cr; static Cr cr_one(RawFr::field, "1", "3", "1", "2"), cr_neg(RawFr::field, "-1", "3", "1", "2"), cr_long(RawFr::field, "9", "3", "1", "2");
template <class C> static void curve_on(Ctx &c, C &g, bool is_long) {
    typedef typename C::Point P; typedef typename C::PointAffine A; P r; A ra; scramble(r); scramble(ra);
    P *ps[4]; A *as[4]; for (int i = 0; i < 2; i++) { int k = (int)c.r.below(8); ps[i] = k == 0 ? &g.one() : k == 1 ? &g.zero() : &pick<P>(c); as[i] = k == 0 ? &g.oneAffine() : k == 1 ? &g.zeroAffine() : &pick<A>(c); }
    if (c.r.chance(1, 8)) { ps[1] = ps[0]; as[1] = as[0]; }
    P &p = *ps[0], &q = *ps[1]; A &a = *as[0], &b = *as[1]; P &pz = pick_nz<P>(c);
    int slen = is_long ? 1 + (int)c.r.below(32) : 1 + (int)c.r.below(2); u8 *s = scal + c.v.below(64);
    switch (c.r.below(34)) {
    case 0: g.add(r, p, q); break; case 1: g.add(r, p, a); break; case 2: g.add(r, a, b); break; case 3: g.add(r, a, q); break;
    case 4: g.add(ra, pz, q); break; case 5: g.add(ra, pz, a); break; case 6: g.add(ra, a, b); break; case 7: g.add(ra, a, pz); break;
    case 8: g.sub(r, p, q); break; case 9: g.sub(r, p, a); break; case 10: g.sub(r, a, b); break; case 11: g.sub(r, a, q); break;
    case 12: g.sub(ra, pz, q); break; case 13: g.sub(ra, a, b); break; case 14: g.dbl(r, p); break; case 15: g.dbl(r, a); break; case 16: g.dbl(ra, pz); break; case 17: g.dbl(ra, a); break;
    case 18: g.neg(r, p); break; case 19: g.neg(ra, a); break; case 20: g.neg(r, a); break; case 21: g.neg(ra, pz); break;
    case 22: c.out((u64)g.eq(p, q)); g.copy(r, p); break; case 23: c.out((u64)g.eq(p, a)); g.copy(r, a); break; case 24: c.out((u64)g.eq(a, b)); g.copy(ra, pz); break; case 25: c.out((u64)g.eq(a, p) * 4 + g.isZero(p) * 2 + g.isZero(a)); g.copy(ra, a); break;
    case 26: c.out(g.toString(pz, 10)); break;
    case 27: { g.copy(r, p); g.add(r, r, a); g.dbl(r, r); break; }
    case 28: g.copy(r, p); g.mulByScalar(r, r, s, slen); break;
    case 29: case 30: g.mulByScalar(r, a, s, slen); break; default: g.mulByScalar(r, p, s, slen); break;
    }
    c.out(&r, sizeof r); c.out(&ra, sizeof ra);
}
static void curve(Ctx &c) { Eng &e = Eng::engine; bool lg = c.priv; switch (c.r.below(8)) { case 0: case 1: case 2: curve_on(c, e.g1, lg); break; case 3: case 4: curve_on(c, e.g2, lg && c.r.chance(1, 4)); break; case 5: curve_on(c, cr_one, lg); break; case 6: curve_on(c, cr_neg, lg); break; default: curve_on(c, cr_long, lg); } }
// ---- construction of engines on fields other threads are using
static void construct(Ctx &c) {
    switch (c.r.below(6)) {
    case 0: { Curve<RawFq> g(Eng::engine.f1, "0", "3", "1", "2"); c.out(&g.one(), sizeof g.one()); break; }
    case 1: { Curve<Eng::F2> g(Eng::engine.f2, "0,0", "1,2", "3,4", "5,6"); c.out(&g.one(), sizeof g.one()); break; }
    case 2: { RawFr::Element x[4]; for (int i = 0; i < 4; i++) { sim::Quiet q; x[i] = pick<RawFr::Element>(c); } Curve<RawFr> g(RawFr::field, x[0], x[1], x[2], x[3]); RawFr::Element a = g.a(); c.out(&a, sizeof a); c.out(&g.oneAffine(), sizeof g.oneAffine()); break; }
    case 3: { Eng::F2 f("-1"); ext2(c, f); break; }
    case 4: { Eng::F12 f; ext_common(c, f, 2); break; }
    default: { Eng *e = new Eng; curve_on(c, e->g1, false); delete e; }
    }
}
static Eng::G1PointAffine *good; static const int NGOOD = 8;      // points of the curve, for algorithms that may add in any order
// ---- algorithms on the real curve and field
static void algo(Ctx &c) {
    Eng &e = Eng::engine; int n = 1 + (int)c.r.below(4), ssz = 1 + (int)c.r.below(2); Eng::G1Point r; scramble(r); u8 *s = scal + c.v.below(60);
    switch (c.r.below(4)) {
    case 0: { e.g1.multiMulByScalar(r, good + c.v.below(NGOOD - 3), s, ssz, n, 2); c.out((u64)e.g1.isZero(r)); std::string t = e.g1.toString(r); c.out(t); break; }
    case 1: { e.g1.multiMulByScalarMSM(r, good + c.v.below(NGOOD - 3), s, ssz, n, 2); std::string t = e.g1.toString(r); c.out(t); break; }
    case 2: { u64 x[2] = {1, (u64)c.r.below(3)}; e.g1.multiMulByScalar(r, good + c.v.below(NGOOD - 3), s, ssz, n, 2, x, 2); std::string t = e.g1.toString(r); c.out(t); break; }
    default: { FFT<RawFr> f(8, 2); RawFr::Element a[8]; { sim::Quiet q; for (int i = 0; i < 8; i++) a[i] = Pool<RawFr::Element>::p[(i + c.r.below(3)) % 8]; } u64 m = 1ull << c.r.below(4); if (c.r.chance(1, 2)) f.fft(a, m); else f.ifft(a, m); c.out(a, sizeof(RawFr::Element) * m); }
    }
}
typedef void (*OpFn)(Ctx &);
static void tagged(Ctx &c) { switch (c.r.below(8)) { case 0: case 1: case 2: Base<RawFr>::tagged(c); break; case 3: case 4: Base<RawFq>::tagged(c); break; case 5: case 6: Base<RawFs>::tagged(c); break; default: Base<RawFl>::tagged(c); } }
static void raw(Ctx &c) { switch (c.r.below(8)) { case 0: case 1: Base<RawFr>::raw(c); break; case 2: case 3: Base<RawFq>::raw(c); break; case 4: case 5: Base<RawFs>::raw(c); break; default: Base<RawFl>::raw(c); } }
static const struct { OpFn f; const char *n; } fam[] = {{tagged, "tagged"}, {raw, "raw"}, {ext, "extension"}, {curve, "curve"}, {construct, "construct"}, {algo, "algorithm"}};
enum { NFAM = 6 };
struct OpDesc { u64 seed, vseed; int fam; bool lg; };
static void run_op(const OpDesc &d, fieldaux::Slot &s) { Ctx c(d.seed, d.vseed, &s); c.priv = d.lg; fam[d.fam].f(c); }
static void run_op_v(void *p, fieldaux::Slot &s) { run_op(*(OpDesc *)p, s); }
template <class E> static void prot(E &e) { sim::protect((void *)&e, sizeof e); }

static void fill_pools(u64 seed) {
    { sim::Quiet q; Rng r(sim::mix(seed, 5));
      Base<RawFr>::fill(r); Base<RawFq>::fill(r); Base<RawFs>::fill(r); Base<RawFl>::fill(r);
      static const u64 one4[4] = {1, 0, 0, 0}; const u64 *qq = Fq_q.longVal, *qr = Fr_q.longVal, *qs = Fs_q.longVal;
      fill_composite<Eng::F2::Element>(r, qq, Fq_N64); fill_composite<F2r::Element>(r, qr, Fr_N64); fill_composite<F2s::Element>(r, qs, Fs_N64); fill_composite<Eng::F6::Element>(r, qq, Fq_N64); fill_composite<Eng::F12::Element>(r, qq, Fq_N64);
      fill_composite<Eng::G1::Point>(r, qq, Fq_N64); fill_composite<Eng::G1::PointAffine>(r, qq, Fq_N64); fill_composite<Eng::G2::Point>(r, qq, Fq_N64); fill_composite<Eng::G2::PointAffine>(r, qq, Fq_N64); fill_composite<Cr::Point>(r, qr, Fr_N64); fill_composite<Cr::PointAffine>(r, qr, Fr_N64);
      good = new Eng::G1PointAffine[NGOOD]; for (int i = 0; i < NGOOD; i++) { memset((void *)&good[i], 0, sizeof good[i]); if (!r.chance(1, 8)) fieldaux::g1_multiple(good[i].x.v, good[i].y.v, 1 + (unsigned)r.below(5), qq); } reg(good, sizeof(*good) * NGOOD);
      { typedef Eng::G1PointAffine A; typedef Eng::G1Point P; int at = 2 + (int)r.below(3); if (r.chance(2, 3)) { Pool<A>::p[at] = good[0]; Pool<P>::p[at].x = good[1].x; Pool<P>::p[at].y = good[1].y; fieldaux::to_mont(Pool<P>::p[at].zz.v, one4, qq, 4); Pool<P>::p[at].zzz = Pool<P>::p[at].zz; } }
      scal = new u8[NSCAL]; for (int i = 0; i < NSCAL; i++) scal[i] = r.chance(1, 8) ? (r.chance(1, 2) ? 0 : 255) : (u8)r.next(); reg(scal, NSCAL); for (int i = 0; i < nregd; i++) { sim::protect(regd[i].p, regd[i].n); sim::watch_shared(regd[i].p, regd[i].n); } }
}
static void gen(Rng &r, Params &p, int tier) {
    int k = (int)r.below(20); int fm = k < 6 ? 0 : k < 10 ? 1 : k < 13 ? 2 : k < 16 ? 3 : k < 17 ? 4 : k < 18 ? 5 : -1;
    p.set("fam", fm); p.set("nthr", r.chance(1, 2) ? 2 : 2 + r.below(4), 2); p.set("nops", 1 + r.below(fm <= 1 && fm >= 0 ? 6 : 3), 1); p.set("same", r.chance(1, 3), 0);
    p.set("lg", r.chance(1, tier ? 6 : 12)); p.set("cseed", (sim::i64)(r.next() >> 1)); p.set("race", r.chance(3, 4)); p.set("hw", 1 + r.below(4), 1);
#ifdef USE_ASM
    int st = fm == 0 || fm == 1 ? (r.chance(3, 4) ? 1 : 2 + (int)r.below(4)) : fm == 4 || fm == 5 ? 5 + (int)r.below(60) : r.chance(1, 4) ? 1 + (int)r.below(4) : 5 + (int)r.below(60);
    if (r.chance(1, 12)) st = 0; if (p["lg"] && st) st += 200;
    p.set("stride", st); p.set("phase", st ? r.below(st < 12 ? st : 12) : 0);
#endif
    p.set("gapmin", p["lg"] ? 200 : fm >= 3 ? 1 + (int)r.below(30) : 1);
}
static void run(const Params &p) {
    int T = (int)p["nthr"], K = (int)p["nops"]; std::vector<OpDesc> ops(T * K); std::vector<fieldaux::Slot> got(T * K);
    sim::set_hw((int)p["hw"]);
    sim::asm_config((int)p["stride"], (int)p["phase"]);
    fill_pools(p["cseed"]);
    { sim::Quiet q;
      Rng o(sim::mix(p["cseed"], 9)); u64 seed0 = o.next(); int fam0 = (int)o.below(NFAM);
      u64 v0 = o.next(); bool samev = o.chance(1, 3);
      for (int i = 0; i < T * K; i++) { ops[i].seed = o.next(); ops[i].vseed = o.next(); static const int mixf[] = {0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5}; ops[i].fam = p["fam"] >= 0 ? (int)p["fam"] : mixf[o.below(12)]; ops[i].lg = p["lg"]; if (p["same"] && o.chance(4, 5)) { ops[i].seed = seed0; if (samev) ops[i].vseed = v0; ops[i].fam = p["fam"] >= 0 ? (int)p["fam"] : fam0; }
          memset(&got[i], 0, sizeof got[i]); fieldaux::alone(i, run_op_v, &ops[i]); } }
    sim::race_on(p["race"]);
    std::vector<std::thread> th;
    auto body = [&](int t) { for (int k = 0; k < K; k++) { int i = t * K + k; if (!fieldaux::slots()[i].ok) continue; fieldaux::Slot s = {0, 0, 0}; run_op(ops[i], s); sim::Quiet q; got[i] = s;
        fieldaux::Slot &w = fieldaux::slots()[i]; if (s.h != w.h || s.n != w.n) sim::viol("wrong-result", "a %s operation gave another result than when run alone", fam[ops[i].fam].n); sim::obs(s.h); } };
    for (int t = 1; t < T; t++) th.emplace_back(body, t);
    body(0);
    for (auto &x : th) x.join();
}
static void gen_keep(Rng &r, Params &p, int tier) { gen(r, p, tier); static const int f[] = {3, 3, 3, 3, 5, 2}; p.set("fam", f[r.below(6)]); p.set("nthr", 1 + r.below(2), 1); p.set("nops", 1 + r.below(3), 1); p.set("race", 0); p.set("stride", 0); p.set("phase", 0); }
static sim::Scenario s_field("field", gen, run), s_keep("smul_keep", gen_keep, run);

// ---- C12 and C19: histories of operations with and without a failing allocation leave nothing allocated
static void gen_acc(Rng &r, Params &p, int tier) {
    gen(r, p, tier); p.set("nthr", r.chance(1, 5) ? 2 : 1, 1); p.set("nops", 1 + r.below(4), 1); p.set("same", 0, 0); p.set("race", 0); p.set("stride", 0); p.set("phase", 0); p.set("lg", r.chance(1, 12)); p.set("fam", r.below(NFAM));
    p.set("fault", r.chance(2, 3), 0); p.set("k", r.below(r.chance(2, 3) ? 4 : 16), 0);
}
static void gen_sres(Rng &r, Params &p, int tier) { gen_acc(r, p, tier); static const int f[] = {3, 3, 3, 5, 4}; p.set("fam", f[r.below(5)]); p.set("nthr", 1, 1); p.set("fault", 1, 1); }
static void run_acc(const Params &p) {
    int T = (int)p["nthr"], K = (int)p["nops"]; std::vector<OpDesc> ops(T * K); sim::set_hw((int)p["hw"]); sim::asm_config(0, 0);
    fill_pools(p["cseed"]);
    { try { throw std::bad_alloc(); } catch (std::bad_alloc &) {} }
    { sim::Quiet q; Rng o(sim::mix(p["cseed"], 9)); for (int i = 0; i < T * K; i++) { ops[i].seed = o.next(); ops[i].vseed = o.next(); ops[i].fam = (int)p["fam"]; ops[i].lg = p["lg"]; fieldaux::alone(i, run_op_v, &ops[i]); } }
    ThreadPool::defaultPool();
    auto once = [&](int i) { fieldaux::Slot s = {0, 0, 0}; run_op(ops[i], s); sim::Quiet q; fieldaux::Slot &w = fieldaux::slots()[i]; if (s.h != w.h || s.n != w.n) sim::viol("wrong-result", "a %s operation gave another result than when run alone", fam[ops[i].fam].n); };
    auto clean = [&](u64 mark, const char *when) { u64 b, f, n = sim::leaked(mark, &b, &f); if (n) sim::viol("leak", "%llu blocks (%llu bytes, one of %llu) are still allocated after %s", (unsigned long long)n, (unsigned long long)b, (unsigned long long)f, when); };
    if (T == 1) {
        for (int i = 0; i < K; i++) { if (!fieldaux::slots()[i].ok) continue;
            if (ops[i].fam == 5) once(i);                                 // (a team of workers is started on first use and kept)
            u64 mark = sim::alloc_mark(); int th = sim::live_threads();
            if (p["fault"]) {
                bool failed = false; sim::arm(sim::F_ALLOC, p["k"]);
                try { once(i); } catch (std::bad_alloc &) { failed = true; } catch (std::exception &e) { sim::viol("wrong-exception", "a failing allocation was reported as %s", e.what()); }
                bool hit = sim::fired(sim::F_ALLOC); sim::arm(sim::F_ALLOC, -1);
                if (failed && !hit) sim::viol("wrong-exception", "bad_alloc without a fault");
                clean(mark, hit ? "an operation in which an allocation failed" : "an operation");
            }
            once(i); clean(mark, "an operation");
            if (sim::live_threads() > th) sim::viol("thread-left", "threads survive an operation");
        }
    } else {
        for (int i = 0; i < T * K; i++) if (fieldaux::slots()[i].ok && ops[i].fam == 5) once(i);
        u64 mark = sim::alloc_mark();
        { std::vector<std::thread> th; for (int t = 1; t < T; t++) th.emplace_back([&, t] { for (int k = 0; k < K; k++) if (fieldaux::slots()[t * K + k].ok) once(t * K + k); });
          for (int k = 0; k < K; k++) if (fieldaux::slots()[k].ok) once(k);
          for (auto &x : th) x.join(); }
        if (p["fam"] != 5) clean(mark, "operations in two threads");
    }
}
static sim::Scenario s_acc("fld_leak", gen_acc, run_acc), s_sres("smul_res", gen_sres, run_acc);

// ---- C30: nothing but the operands matters: not what the destination, the stack or fresh memory held, not what ran before, not whether the destination is an operand
static void noise(Ctx &c, void *p, size_t n) { sim::Quiet q; u8 *b = (u8 *)p; int k = (int)c.m.below(4); for (size_t i = 0; i < n; i++) b[i] = k == 0 ? 0 : k == 1 ? 0xFF : (u8)c.m.next(); }
template <class E> static void unused(Ctx &c, E &e) { sim::Quiet q; if (!c.over) return; if (e.type & 0x80000000) e.shortVal = (int)c.m.next(); else if (!(e.type & 0x40000000)) noise(c, e.longVal, sizeof e.longVal); }       // parts of an element its type declares meaningless
template <class E> static void same(Ctx &c, const E &a, const E &b) { sim::Quiet q; if (memcmp((const void *)&a, (const void *)&b, sizeof(E))) sim::viol("operand-changed", "an operation changed its operand"); }
template <class E, class F, class O> static void bin_on(Ctx &c, E &a0, E &b0, bool tag, F fn, O out) {
    E a, b, x, sa, sb; bool eqv = c.r.chance(1, 6); { sim::Quiet q; memcpy((void *)&a, &a0, sizeof a); memcpy((void *)&b, eqv ? &a0 : &b0, sizeof b); noise(c, &x, sizeof x); memcpy((void *)&sa, &a, sizeof a); memcpy((void *)&sb, &b, sizeof b); }
    int al = c.over ? (int)c.m.below(eqv ? 5 : 3) : 0; if (al) sim::note_fault(sim::F_ALIAS);
    switch (al) {
    case 0: fn(x, a, b); same(c, a, sa); same(c, b, sb); out(c, x); break;
    case 1: fn(a, a, b); same(c, b, sb); out(c, a); break;
    case 2: fn(b, a, b); same(c, a, sa); out(c, b); break;
    case 3: fn(a, a, a); out(c, a); break;
    default: fn(x, a, a); same(c, a, sa); out(c, x);
    }
}
template <class E, class F, class O> static void un_on(Ctx &c, E &a0, F fn, O out) {
    E a, x, sa; { sim::Quiet q; memcpy((void *)&a, &a0, sizeof a); noise(c, &x, sizeof x); memcpy((void *)&sa, &a, sizeof a); }
    if (c.over && c.m.chance(1, 2)) { sim::note_fault(sim::F_ALIAS); fn(a, a); out(c, a); } else { fn(x, a); same(c, a, sa); out(c, x); }
}
template <class R, class E, class F, class O> static void mix_on(Ctx &c, E &a0, F fn, O out) { R x; noise(c, &x, sizeof x); fn(x, a0); out(c, x); }       // result of another type than the operand
template <class E> static void outB(Ctx &c, E &e) { c.out(&e, sizeof e); }
static int ag_op;
template <class RawX> static void ag_tagged(Ctx &c) {
    typedef Base<RawX> B; typedef typename B::T T; typedef typename B::E E; auto o = [](Ctx &c, E &e) { B::outE(c, e); }; E r; noise(c, &r, sizeof r); int k = (int)c.r.below(12);
    E a, b; { sim::Quiet q; a = pick<E>(c); }
    ag_op = -k;
    if (k < 6) { int op = ag_op = (int)c.r.below(NBIN); { sim::Quiet q; b = op >= NBIN_ANY ? pick_nz<E>(c) : pick<E>(c); if (op == 6 || op == 7) if (c.v.chance(2, 3)) { b.type = 0; b.shortVal = (int)c.v.range(-140, 260); } } if (op >= NBIN_ANY) { sim::Quiet q; if (c.r.chance(1, 2)) a = pick_nz<E>(c); } unused(c, a); unused(c, b);
        bin_on(c, a, b, true, [op](E &r, E &x, E &y) { T::bin(op)(&r, &x, &y); }, o); }
    else if (k < 9) { int op = (int)c.r.below(NUN); ag_op = 100 + op; if (op == 8 && !c.r.chance(1, 6)) { sim::Quiet q; a = pick_nz<E>(c); } unused(c, a); un_on(c, a, [op](E &r, E &x) { T::un(op)(&r, &x); }, o); }
    else if (k == 9) { unused(c, a); char *s = T::str(&a); std::string cp; { sim::Quiet q; cp = s; } free(s); c.out(cp); T::str(&r, cp.c_str()); B::outE(c, r); }
    else if (k == 10) { unused(c, a); mpz_t z; mpz_init(z); T::toMpz(z, &a); T::fromMpz(&r, z); mpz_clear(z); B::outE(c, r); }
    else { unused(c, a); c.out((u64)T::isTrue(&a)); E t[3], u[3]; { sim::Quiet q; for (E &e : u) { e = pick<E>(c); } } for (E &e : u) unused(c, e); for (E &e : t) noise(c, &e, sizeof e); T::copyn(t, u, 3); for (E &e : t) B::outE(c, e); }
}
template <class RawX> static void ag_raw(Ctx &c) {
    typedef Base<RawX> B; typedef typename B::R R; RawX &f = RawX::field; const int N = B::N; R &a = pick<R>(c), &b = pick<R>(c), &z = pick_nz<R>(c); R r; noise(c, &r, sizeof r); int iv = c.v.chance(1, 2) ? (int)c.v.range(-40, 40) : fieldaux::rnd_short(c.v); u64 ui = c.v.next() >> c.v.below(64); u8 *sc = scal + c.v.below(64); int ns = 1 + (int)c.r.below(3);
    switch (c.r.below(24)) {
    case 0: case 1: bin_on(c, a, b, false, [&f](R &r, R &x, R &y) { f.add(r, x, y); }, outB<R>); break;
    case 2: case 3: bin_on(c, a, b, false, [&f](R &r, R &x, R &y) { f.sub(r, x, y); }, outB<R>); break;
    case 4: case 5: bin_on(c, a, b, false, [&f](R &r, R &x, R &y) { f.mul(r, x, y); }, outB<R>); break;
    case 6: bin_on(c, z, z, false, [&f](R &r, R &x, R &y) { f.div(r, x, y); }, outB<R>); break;
    case 7: un_on(c, a, [&f](R &r, R &x) { f.neg(r, x); }, outB<R>); break;
    case 8: un_on(c, a, [&f](R &r, R &x) { f.square(r, x); }, outB<R>); break;
    case 9: un_on(c, c.r.chance(1, 5) ? a : z, [&f](R &r, R &x) { f.inv(r, x); }, outB<R>); break;
    case 10: un_on(c, a, [&f](R &r, R &x) { f.toMontgomery(r, x); }, outB<R>); break;
    case 11: un_on(c, a, [&f](R &r, R &x) { f.fromMontgomery(r, x); }, outB<R>); break;
    case 12: un_on(c, a, [&f](R &r, R &x) { f.copy(r, x); }, outB<R>); break;
    case 13: un_on(c, a, [&f, ui](R &r, R &x) { f.mul1(r, x, ui); }, outB<R>); break;
    case 14: case 15: un_on(c, a, [&f, sc, ns](R &r, R &x) { f.exp(r, x, sc, ns); }, outB<R>); break;
    case 16: f.fromUI(r, ui); c.out(&r, sizeof r); break;
    case 17: f.set(r, iv); c.out(&r, sizeof r); break;
    case 18: { std::string s = f.toString(a, c.r.chance(1, 3) ? 16 : 10); c.out(s); f.fromString(r, s); c.out(&r, sizeof r); break; }
    case 19: { mpz_t m; mpz_init(m); f.toMpz(m, a); f.fromMpz(r, m); mpz_clear(m); c.out(&r, sizeof r); break; }
    case 20: { u8 buf[N * 8 + 8]; noise(c, buf, sizeof buf); c.out((u64)f.toRprBE(a, buf, N * 8)); c.out(buf, N * 8); break; }
    case 21: { u8 buf[N * 8]; { sim::Quiet q; memcpy(buf, &a, N * 8); } c.out((u64)f.fromRprBE(r, buf, N * 8)); c.out(&r, sizeof r); break; }
    case 22: { R x, y; { sim::Quiet q; x = a; y = b; } f.swap(x, y); c.out(&x, sizeof x); c.out(&y, sizeof y); break; }
    default: c.out((u64)f.eq(a, b) * 2 + f.isZero(a)); c.out((u64)B::T::init()); f.mul(r, a, b); c.out(&r, sizeof r); f.add(r, f.one(), f.negOne()); c.out(&r, sizeof r);
    }
}
#define BIN(m) bin_on(c, a, b, false, [&f](E &r, E &x, E &y) { f.m(r, x, y); }, outB<E>)
#define UN(m) un_on(c, a, [&f](E &r, E &x) { f.m(r, x); }, outB<E>)
template <class F> static bool ag_ext_common(Ctx &c, F &f, int k) {
    typedef typename F::Element E; E a, b; { sim::Quiet q; memcpy((void *)&a, &pick<E>(c), sizeof a); memcpy((void *)&b, &pick<E>(c), sizeof b); if (k >= 6 && k <= 8) memcpy((void *)&a, &pick_nz<E>(c), sizeof a); if (k == 7) memcpy((void *)&b, &pick_nz<E>(c), sizeof b); }
    switch (k) { case 0: BIN(add); break; case 1: BIN(sub); break; case 2: case 3: BIN(mul); break; case 4: UN(neg); break; case 5: UN(square); break; case 6: UN(inv); break; case 7: BIN(div); break; case 8: UN(copy); break;
    case 9: { E r; noise(c, &r, sizeof r); std::string s = f.toString(a); c.out(s); f.fromString(r, s); c.out(&r, sizeof r); break; } default: return false; }
    return true;
}
template <class F> static void ag_f2(Ctx &c, F &f) { typedef typename F::Element E; int k = (int)c.r.below(14); if (k < 10) { ag_ext_common(c, f, k); return; } E &a = pick<E>(c); typename F::BaseElement &s = pick<typename F::BaseElement>(c);
    switch (k) { case 10: UN(conjugate); break; case 11: UN(mulXi); break; case 12: UN(dbl); break; default: un_on(c, a, [&](E &r, E &x) { f.mulScalar(r, x, s); }, outB<E>); } }
static void ag_ext(Ctx &c) {
    Eng &e = Eng::engine; switch (c.r.below(8)) {
    case 0: case 1: ag_f2(c, e.f2); break; case 2: ag_f2(c, f2r_long); break; case 3: if (c.r.chance(1, 2)) ag_f2(c, f2r_one); else ag_f2(c, f2r_zero); break; case 4: ag_f2(c, f2s_long); break;
    case 5: { typedef Eng::F6 F; typedef F::Element E; F &f = e.f6; int k = (int)c.r.below(16); if (k < 10) { ag_ext_common(c, f, k); break; } E &a = pick<E>(c); auto &s = pick<Eng::F2::Element>(c); auto &g = pick<RawFq::Element>(c);
        switch (k) { case 10: UN(dbl); break; case 11: UN(mulTau); break; case 12: UN(Frobenius); break; case 13: UN(FrobeniusP2); break; case 14: un_on(c, a, [&](E &r, E &x) { f.mulScalar(r, x, s); }, outB<E>); break; default: un_on(c, a, [&](E &r, E &x) { f.mulGFP(r, x, g); }, outB<E>); } break; }
    default: { typedef Eng::F12 F; typedef F::Element E; F &f = e.f12; int k = (int)c.r.below(15); if (k < 10) { ag_ext_common(c, f, k); break; } E &a = pick<E>(c); auto &s = pick<Eng::F6::Element>(c); u8 *sc = scal + c.v.below(64);
        switch (k) { case 10: UN(conjugate); break; case 11: UN(Frobenius); break; case 12: UN(FrobeniusP2); break; case 13: un_on(c, a, [&](E &r, E &x) { f.mulScalar(r, x, s); }, outB<E>); break; default: un_on(c, a, [&](E &r, E &x) { f.exp(r, x, sc, 1); }, outB<E>); } }
    }
}
template <class C> static void ag_curve_on(Ctx &c, C &f, bool lg) {
    typedef typename C::Point P; typedef typename C::PointAffine A; P p, q; A a, b; { sim::Quiet u; int k = (int)c.r.below(8); memcpy((void *)&p, &(k == 0 ? f.one() : k == 1 ? f.zero() : pick<P>(c)), sizeof p); memcpy((void *)&a, &(k == 2 ? f.oneAffine() : k == 3 ? f.zeroAffine() : pick<A>(c)), sizeof a);
        k = (int)c.r.below(8); memcpy((void *)&q, &(k == 0 ? f.one() : k == 1 ? f.zero() : pick<P>(c)), sizeof q); memcpy((void *)&b, &(k == 2 ? f.oneAffine() : k == 3 ? f.zeroAffine() : pick<A>(c)), sizeof b); if (c.r.chance(1, 8)) { q = p; b = a; } }
    int slen = lg ? 1 + (int)c.r.below(32) : 1 + (int)c.r.below(2); u8 *s = scal + c.v.below(64); P z; { sim::Quiet u; memcpy((void *)&z, &pick_nz<P>(c), sizeof z); }
    switch (c.r.below(34)) {
    case 0: case 1: bin_on(c, p, q, false, [&](P &r, P &x, P &y) { f.add(r, x, y); }, outB<P>); break;
    case 2: case 3: un_on(c, p, [&](P &r, P &x) { f.add(r, x, a); }, outB<P>); break;
    case 4: un_on(c, p, [&](P &r, P &x) { f.add(r, a, x); }, outB<P>); break;
    case 5: mix_on<P>(c, a, [&](P &r, A &x) { f.add(r, x, b); }, outB<P>); break;
    case 6: mix_on<A>(c, z, [&](A &r, P &x) { f.add(r, x, q); }, outB<A>); break;
    case 7: un_on(c, a, [&](A &r, A &x) { f.add(r, z, x); }, outB<A>); break;
    case 8: un_on(c, a, [&](A &r, A &x) { f.add(r, x, z); }, outB<A>); break;
    case 9: bin_on(c, a, b, false, [&](A &r, A &x, A &y) { f.add(r, x, y); }, outB<A>); break;
    case 10: case 11: bin_on(c, p, q, false, [&](P &r, P &x, P &y) { f.sub(r, x, y); }, outB<P>); break;
    case 12: un_on(c, p, [&](P &r, P &x) { f.sub(r, x, a); }, outB<P>); break;
    case 13: un_on(c, p, [&](P &r, P &x) { f.sub(r, a, x); }, outB<P>); break;
    case 14: mix_on<P>(c, a, [&](P &r, A &x) { f.sub(r, x, b); }, outB<P>); break;
    case 15: bin_on(c, a, b, false, [&](A &r, A &x, A &y) { f.sub(r, x, y); }, outB<A>); break;
    case 16: un_on(c, a, [&](A &r, A &x) { f.sub(r, z, x); }, outB<A>); break;
    case 17: case 18: un_on(c, p, [&](P &r, P &x) { f.dbl(r, x); }, outB<P>); break;
    case 19: un_on(c, a, [&](A &r, A &x) { f.dbl(r, x); }, outB<A>); break;
    case 20: mix_on<P>(c, a, [&](P &r, A &x) { f.dbl(r, x); }, outB<P>); break;
    case 21: un_on(c, p, [&](P &r, P &x) { f.neg(r, x); }, outB<P>); break;
    case 22: un_on(c, a, [&](A &r, A &x) { f.neg(r, x); }, outB<A>); break;
    case 23: mix_on<P>(c, a, [&](P &r, A &x) { f.neg(r, x); }, outB<P>); break;
    case 24: mix_on<A>(c, z, [&](A &r, P &x) { f.neg(r, x); }, outB<A>); break;
    case 25: un_on(c, p, [&](P &r, P &x) { f.copy(r, x); }, outB<P>); break;
    case 26: mix_on<P>(c, a, [&](P &r, A &x) { f.copy(r, x); }, outB<P>); mix_on<A>(c, z, [&](A &r, P &x) { f.copy(r, x); }, outB<A>); break;
    case 27: c.out((u64)f.eq(p, q) * 8 + f.eq(p, a) * 4 + f.eq(a, b) * 2 + f.eq(a, p)); c.out(f.toString(z, 10)); break;
    case 28: case 29: case 30: un_on(c, p, [&](P &r, P &x) { f.mulByScalar(r, x, s, slen); }, outB<P>); break;
    default: mix_on<P>(c, a, [&](P &r, A &x) { f.mulByScalar(r, x, s, slen); }, outB<P>);
    }
}
static void ag_curve(Ctx &c) { Eng &e = Eng::engine; bool lg = c.priv; switch (c.r.below(8)) { case 0: case 1: case 2: ag_curve_on(c, e.g1, lg); break; case 3: case 4: ag_curve_on(c, e.g2, false); break; case 5: ag_curve_on(c, cr_one, lg); break; case 6: ag_curve_on(c, cr_neg, lg); break; default: ag_curve_on(c, cr_long, lg); } }
static FFT<RawFr> *kept_fft;
static void ag_algo(Ctx &c) {
    Eng &e = Eng::engine; int n = (int)c.r.below(5), ssz = 1 + (int)c.r.below(2); Eng::G1Point r; noise(c, &r, sizeof r); u8 *s = scal + c.v.below(60); auto *g = good + c.v.below(NGOOD - 4); int nt = 1 + (int)c.r.below(3);
    switch (c.r.below(4)) {
    case 0: { e.g1.multiMulByScalar(r, g, s, ssz, n, nt); c.out(e.g1.toString(r)); break; }
    case 1: { e.g1.multiMulByScalarMSM(r, g, s, ssz, n, nt); c.out(e.g1.toString(r)); break; }
    case 2: { u64 x[2] = {c.r.below(3), (u64)c.r.below(3)}; e.g1.multiMulByScalar(r, g, s, ssz, n ? n : 1, 2, x, nt); c.out(e.g1.toString(r)); break; }
    default: { int off = (int)c.r.below(3); u64 m = 1ull << c.r.below(4); bool fw = c.r.chance(1, 2); FFT<RawFr> *f; bool own = !c.over || c.m.chance(1, 3); if (own) f = new FFT<RawFr>(8, 2); else { if (!kept_fft) kept_fft = new FFT<RawFr>(8, 2); f = kept_fft; }
        RawFr::Element a[8]; { sim::Quiet q; for (int i = 0; i < 8; i++) a[i] = Pool<RawFr::Element>::p[(i + off) % 8]; } if (fw) f->fft(a, m); else f->ifft(a, m); c.out(a, sizeof(RawFr::Element) * m); if (own) delete f; }
    }
}
static void ag_t(Ctx &c) { switch (c.r.below(8)) { case 0: case 1: case 2: ag_tagged<RawFr>(c); break; case 3: ag_tagged<RawFq>(c); break; case 4: case 5: ag_tagged<RawFs>(c); break; default: ag_tagged<RawFl>(c); } }
static void ag_r(Ctx &c) { switch (c.r.below(8)) { case 0: case 1: ag_raw<RawFr>(c); break; case 2: case 3: ag_raw<RawFq>(c); break; case 4: case 5: ag_raw<RawFs>(c); break; default: ag_raw<RawFl>(c); } }
static const struct { OpFn f; const char *n; } agf[] = {{ag_t, "tagged"}, {ag_r, "raw"}, {ag_ext, "extension"}, {ag_curve, "curve"}, {construct, "construct"}, {ag_algo, "algorithm"}};
static void ag_alone(void *p, fieldaux::Slot &s) { OpDesc &d = *(OpDesc *)p; Ctx c(d.seed, d.vseed, &s); c.priv = d.lg; agf[d.fam].f(c); }
static void gen_again(Rng &r, Params &p, int tier) {
    static const int f[] = {0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 3, 4, 5, -1, -1}; p.set("fam", f[r.below(20)]); p.set("nops", 1 + r.below(8), 1); p.set("runs", 1 + r.below(20), 1); p.set("fault", r.chance(1, 4), 0); p.set("lg", r.chance(1, tier ? 6 : 12)); p.set("cseed", (sim::i64)(r.next() >> 1)); p.set("hw", 1 + r.below(4), 1); p.set("gapmin", p["fam"] >= 3 ? 200 : 40); { u64 k = r.below(4); p.set("shape", k == 3 ? 1 : k); }
}
static void run_again(const Params &p) {
    int K = (int)p["nops"], N = (int)p["runs"]; std::vector<OpDesc> ops(K); sim::set_hw((int)p["hw"]); sim::asm_config(0, 0); fill_pools(p["cseed"]); kept_fft = nullptr; Rng o(sim::mix(p["cseed"], 11));
    { sim::Quiet q; u64 s0 = o.next(), v0 = o.next(); for (int i = 0; i < K; i++) { ops[i].seed = p["shape"] == 1 ? s0 : o.next(); ops[i].vseed = p["shape"] == 2 ? v0 : o.next(); static const int mixf[] = {0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5}; ops[i].fam = p["fam"] >= 0 ? (int)p["fam"] : mixf[o.below(12)]; ops[i].lg = p["lg"]; fieldaux::alone(i, ag_alone, &ops[i]); } }
    for (int k = 0; k < N; k++) {
        int i = (int)o.below(K); u64 ms = o.next(); bool fail = p["fault"] && o.chance(1, 3); sim::i64 fk = (sim::i64)o.below(6); if (!fieldaux::slots()[i].ok) continue;
        if (ops[i].fam == 5 && fail) continue;        // (a worker that cannot report its failure)
        fieldaux::Slot s = {0, 0, 0}; Ctx c(ops[i].seed, ops[i].vseed, &s); c.priv = ops[i].lg; c.m = Rng(ms); c.over = true; sim::note_fault(sim::F_NOISE); fieldaux::stack_noise(sim::mix(ms, 3));
        if (fail) sim::arm(sim::F_ALLOC, fk);
        bool threw = false; try { agf[ops[i].fam].f(c); } catch (std::bad_alloc &) { threw = true; }
        bool hit = fail && sim::fired(sim::F_ALLOC); if (fail) sim::arm(sim::F_ALLOC, -1); if (threw) { if (!hit) sim::viol("wrong-exception", "bad_alloc without a fault"); continue; }
        sim::Quiet q; fieldaux::Slot &w = fieldaux::slots()[i]; if (s.h != w.h || s.n != w.n) sim::viol("wrong-result", "a %s operation (%d) gave another result than in a fresh process with a separate destination", agf[ops[i].fam].n, ag_op); sim::obs(s.h);
    }
}
static sim::Scenario s_again("again", gen_again, run_again);

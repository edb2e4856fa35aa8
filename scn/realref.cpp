#include "realref.h"
#include <gmpxx.h>
#include <cstring>
#include <cstdio>
namespace realref {
typedef mpz_class Z;
static const char *PR[4] = {"21888242871839275222246405745257275088548364400416034343698204186575808495617", "21888242871839275222246405745257275088696311157297823662689037894645226208583", "18446744069414584321", "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787"};
static const int NW[4] = {4, 4, 1, 6};
static Z Q(int f) { return Z(PR[f]); }
static Z imp(const u64 *v, int n) { Z z; mpz_import(z.get_mpz_t(), n, -1, 8, -1, 0, v); return z; }
static void expo(u64 *v, int n, const Z &z) { memset(v, 0, 8 * n); mpz_export(v, nullptr, -1, 8, -1, 0, z.get_mpz_t()); }
static Z md(const Z &a, const Z &m) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
static Z inv(const Z &a, const Z &m) { Z r; mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
static Z pw(const Z &a, const Z &e, const Z &m) { Z r; mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); return r; }
static Z from_mont(const u64 *v, int f) { Z m = Q(f), R = Z(1) << (64 * NW[f]); return md(imp(v, NW[f]) * inv(md(R, m), m), m); }
static void to_mont(u64 *v, const Z &a, int f) { expo(v, NW[f], md(a << (64 * NW[f]), Q(f))); }
struct E2 { Z a, b; };          // a + b i (i^2 = -1); b stays 0 in the base field
static E2 add(const E2 &x, const E2 &y, const Z &m) { return {md(x.a + y.a, m), md(x.b + y.b, m)}; }
static E2 sub(const E2 &x, const E2 &y, const Z &m) { return {md(x.a - y.a, m), md(x.b - y.b, m)}; }
static E2 mul(const E2 &x, const E2 &y, const Z &m) { return {md(x.a * y.a - x.b * y.b, m), md(x.a * y.b + x.b * y.a, m)}; }
static E2 inv(const E2 &x, const Z &m) { Z n = inv(md(x.a * x.a + x.b * x.b, m), m); return {md(x.a * n, m), md(-x.b * n, m)}; }
static bool zero(const E2 &x) { return x.a == 0 && x.b == 0; }
static bool eq(const E2 &x, const E2 &y) { return x.a == y.a && x.b == y.b; }
struct Pt { E2 x, y; bool inf = true; };
static Pt padd(const Pt &p, const Pt &q, const Z &m) {
    if (p.inf) return q; if (q.inf) return p; E2 l;
    if (eq(p.x, q.x)) { if (!eq(p.y, q.y) || zero(p.y)) return Pt(); E2 t = mul(p.x, p.x, m); l = mul(add(add(t, t, m), t, m), inv(add(p.y, p.y, m), m), m); }
    else l = mul(sub(p.y, q.y, m), inv(sub(p.x, q.x, m), m), m);
    Pt r; r.inf = false; r.x = sub(sub(mul(l, l, m), p.x, m), q.x, m); r.y = sub(mul(l, sub(p.x, r.x, m), m), p.y, m); return r;
}
static Pt pmul(const Pt &p, Z k, const Z &m) { Pt r; for (long i = (long)mpz_sizeinbase(k.get_mpz_t(), 2) - 1; i >= 0; i--) { r = padd(r, r, m); if (mpz_tstbit(k.get_mpz_t(), i)) r = padd(r, p, m); } return r; }
// bases: infinity, small multiples, large multiples, as raw words computed before any run starts
static const int NP = 40, NSMALL = 20; static u64 tab[2][NP][16], ks[NP][4], gen[2][16];
static Pt words(const u64 *w) { Pt p; bool z = true; for (int i = 0; i < 16; i++) z = z && !w[i]; if (z) return p; p.inf = false; p.x = {imp(w, 4), imp(w + 4, 4)}; p.y = {imp(w + 8, 4), imp(w + 12, 4)}; return p; }
static void put(u64 *w, const Pt &p) { memset(w, 0, 128); if (p.inf) return; expo(w, 4, p.x.a); expo(w + 4, 4, p.x.b); expo(w + 8, 4, p.y.a); expo(w + 12, 4, p.y.b); }
static struct Init { Init() {
    Z m = Q(1), r = Q(0); Pt g[2]; g[0].inf = g[1].inf = false; g[0].x = {1, 0}; g[0].y = {2, 0};
    g[1].x = {Z("10857046999023057135944570762232829481370756359578518086990519993285655852781"), Z("11559732032986387107991004021392285783925812861821192530917403151452391805634")};
    g[1].y = {Z("8495653923123431417604973247489272438418190587263600148770280649306958101930"), Z("4082367875863433681332203403145435568316851327593401208105741076214120093531")};
    sim::Rng rr(77); Z k[NP];
    for (int i = 0; i < NP; i++) { if (i <= NSMALL) k[i] = i; else if (i < 26) k[i] = r - (i - NSMALL); else { u64 v[4]; for (u64 &x : v) x = rr.next(); k[i] = md(imp(v, 4), r); } expo(ks[i], 4, k[i]); }
    for (int j = 0; j < 2; j++) { put(gen[j], g[j]); for (int i = 0; i < NP; i++) put(tab[j][i], pmul(g[j], k[i], m)); }
} } init_;
int npoints() { return NP; }
void point(int grp, int i, bool neg, u64 *xy) {
    sim::NoFault nf; Pt p = words(tab[grp][i]); int d = grp ? 8 : 4; memset(xy, 0, 16 * d); if (p.inf) return; Z m = Q(1); if (neg) p.y = sub({0, 0}, p.y, m);
    to_mont(xy, p.x.a, 1); to_mont(xy + d, p.y.a, 1); if (grp) { to_mont(xy + 4, p.x.b, 1); to_mont(xy + d + 4, p.y.b, 1); }
}
bool sum_is(int grp, const int *idx, const bool *neg, const u8 *s, u64 ssz, u64 n, u64 nx, const u64 *x, const u64 *res, char *why) {
    sim::NoFault nf; Z m = Q(1), r = Q(0), t = 0;
    for (u64 i = 0; i < n; i++) { if (nx && i / nx >= x[i % nx]) continue; Z k; mpz_import(k.get_mpz_t(), ssz, -1, 1, 0, 0, s + i * ssz); Z c = imp(ks[idx[i]], 4); if (neg[i]) c = -c; t += k * c; }
    Pt w = pmul(words(gen[grp]), md(t, r), m); int d = grp ? 8 : 4; E2 c[4]; Z q = Q(1);
    for (int i = 0; i < 4; i++) { for (int j = 0; j < d; j += 4) if (imp(res + i * d + j, 4) >= q) { strcpy(why, "a coordinate of the result is not below the prime"); return false; } c[i].a = from_mont(res + i * d, 1); if (grp) c[i].b = from_mont(res + i * d + 4, 1); }
    if (zero(c[2])) { if (!w.inf) { strcpy(why, "the result is the point at infinity and should not be"); return false; } return true; }
    if (w.inf) { strcpy(why, "the result is not the point at infinity and should be"); return false; }
    E2 z2 = mul(mul(c[2], c[2], m), c[2], m), z3 = mul(c[3], c[3], m); if (!eq(z2, z3)) { strcpy(why, "the result is no valid point representation"); return false; }
    if (!eq(c[0], mul(w.x, c[2], m)) || !eq(c[1], mul(w.y, c[3], m))) { strcpy(why, "the result is another point"); return false; }
    return true;
}
int two_adicity(int f) { Z q = Q(f) - 1; return (int)mpz_scan1(q.get_mpz_t(), 0); }
void rnd(sim::Rng &r, int f, u64 *v) { sim::NoFault nf; u64 t[8]; for (int i = 0; i < NW[f]; i++) t[i] = r.next(); Z z = md(imp(t, NW[f]), Q(f)); int k = (int)r.below(10); if (k == 0) z = (unsigned long)r.below(3); else if (k == 1) z = Q(f) - 1 - (unsigned long)r.below(2); expo(v, NW[f], z); }
bool is_primitive(int f, const u64 *w, u64 n) { sim::NoFault nf; Z m = Q(f), x = from_mont(w, f); if (n == 1) return x == 1; return pw(x, Z((unsigned long)(n / 2)), m) == m - 1; }
bool is_power(int f, const u64 *x, const u64 *w, u64 e) { sim::NoFault nf; return from_mont(x, f) == pw(from_mont(w, f), Z((unsigned long)e), Q(f)); }
bool dft_is(int f, const u64 *in, const u64 *out, const u64 *w, u64 n, u64 k) {
    sim::NoFault nf; Z m = Q(f), wk = pw(from_mont(w, f), Z((unsigned long)k), m), t = 1, r = 0; for (u64 j = 0; j < n; j++) { r = md(r + from_mont(in + j * NW[f], f) * t, m); t = md(t * wk, m); }
    return from_mont(out + k * NW[f], f) == r;
}
}

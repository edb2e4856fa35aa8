// Toy prime field and toy group (Z_m under addition) with the interfaces the library is written against, and fault helpers.
#pragma once
#include <assert.h>
#include <dlfcn.h>
#include <gmp.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
#include <atomic>
#include <functional>
#include <iostream>
#include <new>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
typedef uint64_t u64;
static const u64 MOD = 2305843009213693951ull;
struct Field {
    struct Element { u64 v; };
    static const u64 P = 998244353;
    Element o, z, no;
    Field() { o.v = 1; z.v = 0; no.v = P - 1; }
    const Element &one() { return o; } const Element &zero() { return z; } const Element &negOne() { return no; }
    void copy(Element &r, const Element &a) { r.v = a.v; }
    void add(Element &r, const Element &a, const Element &b) { r.v = (a.v + b.v) % P; }
    void sub(Element &r, const Element &a, const Element &b) { r.v = (a.v + P - b.v) % P; }
    void mul(Element &r, const Element &a, const Element &b) { r.v = a.v * b.v % P; }
    void square(Element &r, const Element &a) { r.v = a.v * a.v % P; }
    void exp(Element &r, const Element &b, uint8_t *s, unsigned n) { Element x = b, y = o; for (unsigned i = 0; i < n * 8; i++) { if (s[i / 8] >> (i % 8) & 1) mul(y, y, x); square(x, x); } r = y; }
    int eq(const Element &a, const Element &b) { return a.v == b.v; }
    int isZero(const Element &a) { return !a.v; }
    void toMpz(mpz_t r, const Element &a) { mpz_set_ui(r, a.v); }
    void fromMpz(Element &r, const mpz_t a) { r.v = mpz_get_ui(a); }
    std::string toString(const Element &a, uint32_t = 10) { return std::to_string(a.v); }
    static Field field;
};
Field Field::field;
struct Curve {
    struct Point { u64 v; }; struct PointAffine { u64 v; };
    Point fz; PointAffine fza;
    Curve() { fz.v = 0; fza.v = 0; }
    Point &zero() { return fz; } PointAffine &zeroAffine() { return fza; }
    static u64 A(u64 a, u64 b) { u64 s = a + b; return s >= MOD ? s - MOD : s; }
    static u64 N(u64 a) { return a ? MOD - a : 0; }
    template <class R, class X, class Y> void add(R &r, X &a, Y &b) { r.v = A(a.v, b.v); }
    template <class R, class X, class Y> void sub(R &r, X &a, Y &b) { r.v = A(a.v, N(b.v)); }
    template <class R, class X> void neg(R &r, X &a) { r.v = N(a.v); }
    template <class R, class X> void dbl(R &r, X &a) { r.v = A(a.v, a.v); }
    template <class R, class X> void copy(R &r, X &a) { r.v = a.v; }
    template <class X, class Y> bool eq(X &a, Y &b) { return a.v == b.v; }
    template <class X> bool isZero(X &a) { return !a.v; }
    template <class B> void mulByScalar(Point &r, B &b, uint8_t *s, unsigned n) { u64 x = b.v, y = 0; for (unsigned i = n * 8; i-- > 0;) { y = A(y, y); if (s[i / 8] >> (i % 8) & 1) y = A(y, x); } r.v = y; }
};
static inline u64 naive(const std::vector<Curve::PointAffine> &b, const std::vector<uint8_t> &s, unsigned len, unsigned n) {
    Curve c; u64 t = 0; for (unsigned i = 0; i < n; i++) { Curve::Point p; Curve::PointAffine q = b[i]; c.mulByScalar(p, q, (uint8_t *)&s[(size_t)i * len], len); t = Curve::A(t, p.v); } return t; }
static u64 rs = 88172645463325252ull;
static inline u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
static inline void watchdog(int sec) { std::thread([sec] { std::this_thread::sleep_for(std::chrono::seconds(sec)); FAIL("no progress in %d s", sec); }).detach(); }
static inline int threads_now() { FILE *f = fopen("/proc/self/status", "r"); char l[256]; int n = 0; while (fgets(l, sizeof l, f)) if (!strncmp(l, "Threads:", 8)) n = atoi(l + 8); fclose(f); return n; }
// processor count seen by the library
#ifdef NPROCS
extern "C" int get_nprocs(void) noexcept { return NPROCS; }
extern "C" int get_nprocs_conf(void) noexcept { return NPROCS; }
#endif
// fail the k-th operator new; count live blocks
#ifdef HEAP
static std::atomic<long> live(0), countdown(-1);
void *operator new(size_t n) { if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { live--; free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
#endif

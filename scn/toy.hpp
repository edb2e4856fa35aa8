// Small prime fields and a small group with the interfaces the algorithms are written against (instrumented with them).
#pragma once
#include "rt.h"
#include "oracle.h"
#include <gmp.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <sys/types.h>

template <uint64_t P> class ToyField {
public:
    struct Element { uint64_t v; };
private:
    Element z, o, no;
public:
    static const uint64_t prime = P;
    ToyField() { z.v = 0; o.v = 1; no.v = P - 1; }
    const Element &zero() { return z; }
    const Element &one() { return o; }
    const Element &negOne() { return no; }
    void copy(Element &r, const Element &a) { r.v = a.v; }
    void swap(Element &a, Element &b) { uint64_t t = a.v; a.v = b.v; b.v = t; }
    static uint64_t A(uint64_t a, uint64_t b) { unsigned __int128 s = (unsigned __int128)a + b; return (uint64_t)(s >= P ? s - P : s); }
    static uint64_t S(uint64_t a, uint64_t b) { return a >= b ? a - b : a + (P - b); }
    static uint64_t M(uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b % P); }
    void add(Element &r, const Element &a, const Element &b) { uint64_t x = a.v, y = b.v; r.v = A(x, y); }
    void sub(Element &r, const Element &a, const Element &b) { uint64_t x = a.v, y = b.v; r.v = S(x, y); }
    void mul(Element &r, const Element &a, const Element &b) { uint64_t x = a.v, y = b.v; r.v = M(x, y); }
    Element add(const Element &a, const Element &b) { Element r; add(r, a, b); return r; }
    Element sub(const Element &a, const Element &b) { Element r; sub(r, a, b); return r; }
    Element mul(const Element &a, const Element &b) { Element r; mul(r, a, b); return r; }
    Element neg(const Element &a) { Element r; neg(r, a); return r; }
    Element square(const Element &a) { Element r; square(r, a); return r; }
    Element set(int v) { Element r; set(r, v); return r; }
    void set(Element &r, int v) { long x = v; x %= (long)(P > (1ul << 62) ? (1ul << 62) : P); r.v = x < 0 ? P - (uint64_t)(-x) : (uint64_t)x % P; }
    void fromUI(Element &r, unsigned long v) { r.v = v % P; }
    void neg(Element &r, const Element &a) { uint64_t x = a.v; r.v = x ? P - x : 0; }
    void square(Element &r, const Element &a) { uint64_t x = a.v; r.v = M(x, x); }
    void mul1(Element &r, const Element &a, uint64_t b) { uint64_t x = a.v; r.v = M(x, b % P); }
    void inv(Element &r, const Element &a) { uint64_t x = a.v, e = P - 2, y = 1; while (e) { if (e & 1) y = M(y, x); x = M(x, x); e >>= 1; } r.v = y; }
    void div(Element &r, const Element &a, const Element &b) { Element t; inv(t, b); mul(r, a, t); }
    void exp(Element &r, const Element &base, uint8_t *s, unsigned int n) {
        Element c; copy(c, base); bool found = false;
        for (int i = (int)n * 8 - 1; i >= 0; i--) { bool bit = s[i >> 3] & (1 << (i & 7)); if (!found) { if (!bit) continue; copy(r, c); found = true; continue; } square(r, r); if (bit) mul(r, r, c); }
        if (!found) copy(r, o);
    }
    void toMontgomery(Element &r, const Element &a) { r.v = a.v; }
    void fromMontgomery(Element &r, const Element &a) { r.v = a.v; }
    int eq(const Element &a, const Element &b) { return a.v == b.v; }
    int isZero(const Element &a) { return a.v == 0; }
    void toMpz(mpz_t r, const Element &a) { mpz_set_ui(r, a.v); }
    void fromMpz(Element &r, const mpz_t a) { r.v = mpz_get_ui(a); }
    std::string toString(const Element &a, uint32_t radix = 10) { (void)radix; return std::to_string(a.v); }
    void fromString(Element &r, const std::string &s, uint32_t radix = 10) { r.v = std::stoull(s, 0, radix) % P; }
    int bytes() { return 8; }
    static ToyField field;
};
template <uint64_t P> ToyField<P> ToyField<P>::field;

// The cyclic group Z_m (m prime, 61 bits) in redundant form: w is always 3*v, so mixing parts of different values shows.
namespace toy {
static const uint64_t MOD = 2305843009213693951ull;
struct Point { uint64_t v, w; };
struct PointAffine { uint64_t v, w; };
inline uint64_t A(uint64_t a, uint64_t b) { uint64_t s = a + b; return s >= MOD ? s - MOD : s; }
inline uint64_t N(uint64_t a) { return a ? MOD - a : 0; }
}
template <int TAG> struct ToyCurve {
    typedef toy::Point Point; typedef toy::PointAffine PointAffine;
    Point fz, fo; PointAffine fza, foa;
    ToyCurve() { fz.v = fz.w = fza.v = fza.w = 0; fo.v = foa.v = 1; fo.w = foa.w = 3; }
    Point &zero() { return fz; } PointAffine &zeroAffine() { return fza; } Point &one() { return fo; } PointAffine &oneAffine() { return foa; }
    template <class R, class X, class Y> static void add_(R &r, X &a, Y &b) { uint64_t v = toy::A(a.v, b.v), w = toy::A(a.w, b.w); r.v = v; r.w = w; }
    template <class R, class X, class Y> static void sub_(R &r, X &a, Y &b) { uint64_t v = toy::A(a.v, toy::N(b.v)), w = toy::A(a.w, toy::N(b.w)); r.v = v; r.w = w; }
    template <class R, class X> static void neg_(R &r, X &a) { uint64_t v = toy::N(a.v), w = toy::N(a.w); r.v = v; r.w = w; }
    template <class R, class X> static void cp_(R &r, X &a) { uint64_t v = a.v, w = a.w; r.v = v; r.w = w; }
#define TOY3(R, X, Y) void add(R &r, X &a, Y &b) { add_(r, a, b); } void sub(R &r, X &a, Y &b) { sub_(r, a, b); }
    TOY3(Point, Point, Point) TOY3(Point, Point, PointAffine) TOY3(Point, PointAffine, Point) TOY3(Point, PointAffine, PointAffine)
    TOY3(PointAffine, Point, Point) TOY3(PointAffine, Point, PointAffine) TOY3(PointAffine, PointAffine, Point) TOY3(PointAffine, PointAffine, PointAffine)
#define TOY2(R, X) void dbl(R &r, X &a) { add_(r, a, a); } void neg(R &r, X &a) { neg_(r, a); } void copy(R &r, X &a) { cp_(r, a); }
    TOY2(Point, Point) TOY2(Point, PointAffine) TOY2(PointAffine, Point) TOY2(PointAffine, PointAffine)
    template <class X, class Y> bool eq(X &a, Y &b) { return a.v == b.v; }
    bool isZero(Point &a) { return a.v == 0; } bool isZero(PointAffine &a) { return a.v == 0; }
    template <class B> void mulByScalar(Point &r, B &base, uint8_t *s, unsigned int n) {
        Point acc; acc.v = acc.w = 0; Point b; cp_(b, base);
        for (unsigned i = n * 8; i-- > 0;) { dbl(acc, acc); if (s[i / 8] & (1 << (i % 8))) add(acc, acc, b); }
        cp_(r, acc);
    }
    std::string toString(Point &a, uint32_t = 10) { return std::to_string(a.v); }
};

// Reference for the real groups and fields: GMP integers and affine formulas, nothing of the code under test. (not instrumented, no preemption)
#pragma once
#include "rt.h"
#include <cstdint>
namespace realref {
typedef uint64_t u64; typedef uint8_t u8;
struct Bases { int n; u64 k[64]; };                                   // known multiples of the generator
void point(int grp, int i, bool neg, u64 *xy);                        // affine coordinates of base i (0: infinity), Montgomery words
int npoints();
bool sum_is(int grp, const int *idx, const bool *neg, const u8 *s, u64 ssz, u64 n, u64 nx, const u64 *x, const u64 *res, char *why);   // res: x, y, zz, zzz of the result (Montgomery words)
int two_adicity(int field);
void rnd(sim::Rng &r, int field, u64 *v);
bool is_primitive(int field, const u64 *w, u64 n);                    // w a primitive n-th root of unity (n a power of two)
bool is_power(int field, const u64 *x, const u64 *w, u64 e);          // x == w^e
bool dft_is(int field, const u64 *in, const u64 *out, const u64 *w, u64 n, u64 k);   // out[k] == sum in[j] w^(jk)
}

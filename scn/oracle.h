// Independent reference computations; compiled without instrumentation.
#pragma once
#include "rt.h"
namespace oracle {
typedef sim::u64 u64; typedef sim::u8 u8;
u64 mulmod(u64 a, u64 b, u64 m);
u64 addmod(u64 a, u64 b, u64 m);
u64 powmod(u64 a, u64 e, u64 m);
u64 bytesmod(const u8 *le, u64 n, u64 m);                      // little-endian number modulo m
u64 msm(const u64 *bases, u64 stride_words, const u8 *scalars, u64 ssz, u64 n, u64 m, u64 nx = 0, const u64 *x = nullptr);   // sum scalar*base in Z_m (optionally grouped)
u64 dft_at(const u64 *a, u64 n, u64 w, u64 k, u64 m);          // sum a[j] w^(jk)
void fill_scalar(sim::Rng &r, u8 *s, u64 ssz);                 // biased towards boundary patterns
u64 pick_ssz(sim::Rng &r);
void gmp_setup();                                             // GMP ends the process when it runs out of memory: exempt its own allocations
}

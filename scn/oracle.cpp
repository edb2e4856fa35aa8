#include "oracle.h"
#include <cstring>
#include <cstdlib>
#include <gmp.h>
namespace oracle {
typedef unsigned __int128 u128;
u64 mulmod(u64 a, u64 b, u64 m) { return (u64)((u128)a * b % m); }
u64 addmod(u64 a, u64 b, u64 m) { return (u64)(((u128)a + b) % m); }
u64 powmod(u64 a, u64 e, u64 m) { u64 r = 1 % m; a %= m; for (; e; e >>= 1) { if (e & 1) r = mulmod(r, a, m); a = mulmod(a, a, m); } return r; }
u64 bytesmod(const u8 *s, u64 n, u64 m) { u64 r = 0; for (u64 i = n; i-- > 0;) r = (u64)(((u128)r * 256 + s[i]) % m); return r; }
u64 msm(const u64 *b, u64 st, const u8 *s, u64 ssz, u64 n, u64 m, u64 nx, const u64 *x) {
    u64 r = 0; for (u64 i = 0; i < n; i++) { if (nx && i / nx >= x[i % nx]) continue; r = addmod(r, mulmod(bytesmod(s + i * ssz, ssz, m), b[i * st], m), m); } return r;
}
u64 dft_at(const u64 *a, u64 n, u64 w, u64 k, u64 m) { u64 wk = powmod(w, k, m), r = 0, t = 1 % m; for (u64 j = 0; j < n; j++) { r = addmod(r, mulmod(a[j], t, m), m); t = mulmod(t, wk, m); } return r; }
void fill_scalar(sim::Rng &r, u8 *s, u64 ssz) {
    switch (r.below(10)) {
    case 0: memset(s, 0, ssz); break;
    case 1: memset(s, 0xff, ssz); break;
    case 2: memset(s, 0, ssz); s[0] = 1; break;
    case 3: memset(s, 0, ssz); s[ssz - 1] = 0x80; break;
    case 4: memset(s, 0, ssz); s[r.below(ssz)] = (u8)(1 << r.below(8)); break;
    case 5: memset(s, 0xff, ssz); s[r.below(ssz)] = (u8)r.next(); break;
    case 6: for (u64 i = 0; i < ssz; i++) s[i] = (u8)r.next(); s[ssz - 1] |= 0x80; break;
    case 7: { memset(s, 0, ssz); u64 a = r.below(ssz * 8), b = a + r.below(ssz * 8 - a) + 1; for (u64 i = a; i < b; i++) s[i / 8] |= (u8)(1 << (i % 8)); break; }
    default: for (u64 i = 0; i < ssz; i++) s[i] = (u8)r.next();
    }
}
u64 pick_ssz(sim::Rng &r) { static const u8 t[] = {1, 2, 3, 4, 5, 7, 8, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 32, 32, 33, 40}; return r.chance(1, 4) ? 1 + r.below(10) : t[r.below(sizeof t)]; }
static void *ga(size_t n) { sim::NoFault f; return malloc(n); }
static void *gr(void *p, size_t, size_t n) { sim::NoFault f; return realloc(p, n); }
static void gf(void *p, size_t) { free(p); }
void gmp_setup() { mp_set_memory_functions(ga, gr, gf); }
}

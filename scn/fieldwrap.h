// Seams below the field code: generated assembly and GMP (neither is instrumented). Used by the generated wrappers.
#pragma once
#include "rt.h"
#include <cstring>
#include <gmp.h>
namespace sim {
long asm_call(long (*fn)(long, long, long, long, long, long), long a, long b, long c, long d, long e, long f);
struct AsmFn { const char *name; long (*fn)(long, long, long, long, long, long); char sig[8]; int ret, field, n64; };
extern const AsmFn asm_table[]; extern const int asm_table_n;
long noisy(long (*fn)(long, long, long, long, long, long), const long *args, u64 noise);      // with that noise in undefined registers
void asm_config(int stride, int phase);          // every stride-th assembly call of a thread is stepped by machine instruction (0: none)
void watch_shared(const void *p, size_t n);      // contents must not change while stepping or after an assembly call
void unwatch();
}
static inline void zread(long z) { const __mpz_struct *p = (const __mpz_struct *)z; sim::check_read(p, sizeof *p); int n = p->_mp_size < 0 ? -p->_mp_size : p->_mp_size; sim::check_read(p->_mp_d, (size_t)n * 8); }
static inline void zhead(long z) { sim::check_read((void *)z, sizeof(__mpz_struct)); }
static inline void zwrite(long z) { const __mpz_struct *p = (const __mpz_struct *)z; sim::check_write(p, sizeof *p); int n = p->_mp_size < 0 ? -p->_mp_size : p->_mp_size; sim::check_write(p->_mp_d, (size_t)n * 8); }
static inline void zexport(long r, long countp, long z, long size) {
    if (countp) sim::check_write((void *)countp, 8);
    const __mpz_struct *p = (const __mpz_struct *)z; size_t bits = p->_mp_size ? mpz_sizeinbase(p, 2) : 0; size_t n = size ? (bits + size * 8 - 1) / (size * 8) * size : 0;
    if (r) sim::check_write((void *)r, n);
}

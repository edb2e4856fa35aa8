// Harness side of the field scenarios (not instrumented, no preemption): operands built with GMP, and running an operation alone.
#pragma once
#include "rt.h"
#include <cstdint>
#include <cstddef>
namespace fieldaux {
void rnd_mod(sim::Rng &r, uint64_t *out, const uint64_t *q, int n64);                 // a residue, biased to boundary values
void to_mont(uint64_t *out, const uint64_t *in, const uint64_t *q, int n64);           // in * 2^(64 n64) mod q
int rnd_short(sim::Rng &r);      // biased to small values and to the limits
void small_mod(uint64_t *out, int v, const uint64_t *q, int n64);                      // v mod q
void g1_multiple(uint64_t *x, uint64_t *y, unsigned k, const uint64_t *q);               // k (1, 2) on y^2 = x^3 + 3, coordinates in Montgomery form
void stack_noise(uint64_t seed);       // leaves noise where the next calls' frames will lie
struct Slot { uint64_t h; uint64_t ok; uint64_t n; };
Slot *slots();                                                                        // shared between processes, 512 entries
void alone(int i, void (*fn)(void *, Slot &), void *arg);                              // runs fn in a process of its own, result in slots()[i]
}

// The multi-scalar multiplication with a fixed window width (the MSM_BITS_PER_CHUNK build option).
#include "toy.hpp"
#include <stdexcept>
#include "msm.hpp"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(msm_w, MSM_BITS_PER_CHUNK)(toy::Point &r, toy::PointAffine *b, uint8_t *s, uint64_t ssz, uint64_t n, uint64_t nt) {
    static ToyCurve<MSM_BITS_PER_CHUNK> g; MSM<ToyCurve<MSM_BITS_PER_CHUNK>, int> m(g); m.run(r, b, s, ssz, n, nt);
}

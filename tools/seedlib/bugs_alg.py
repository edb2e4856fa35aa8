M = "c/msm.cpp"; X = "c/multiexp.cpp"; F = "c/fft.cpp"
bug("c05-lost-top-carry", "C05", "a scalar whose significant bytes end exactly at a window whose digit carries", "Digits above a scalar's significant bytes are filled with zeros, losing a pending carry.",
 [(M, """            int carry = 0;

            for (int j = 0; j < nChunks; j++) {
""", """            int carry = 0;
            uint64_t usedBits = scalarSize * 8;

            // most scalars of a witness are small: the upper windows need no work
            while (usedBits > 0 && scalars[i*scalarSize + usedBits/8 - 1] == 0) {
                usedBits -= 8;
            }

            for (int j = 0; j < nChunks; j++) {
                if (j*bitsPerChunk >= usedBits) {
                    slicedScalars[i*nChunks + j] = 0;
                    continue;
                }
""")], r'''#include "demo.h"
#include "msm.hpp"
int main() {
    Curve c;
    for (int t = 0; t < 400; t++) {
        unsigned n = 2 + t % 20, len = 32; std::vector<Curve::PointAffine> b(n); std::vector<uint8_t> s(n * len, 0);
        for (auto &x : b) x.v = rnd() % MOD;
        for (unsigned i = 0; i < n; i++) for (unsigned k = 0; k < (t & 1 ? len : 1 + rnd() % 8); k++) s[i * len + k] = t % 3 ? 0xff - rnd() % 4 : rnd();
        Curve::Point r; MSM<Curve, Field> m(c); m.run(r, b.data(), s.data(), len, n);
        if (r.v != naive(b, s, len, n)) FAIL("wrong sum in case %d (n=%u)", t, n);
    }
    _exit(0);
}
''', ["misc.cpp"])

bug("c05-bucket-slots", "C05", "several windows on one pool thread, and a digit that falls in the topmost bucket", "Buckets are cleared while they are summed up, but the topmost one is read before that loop and keeps its points for the thread's next chunk.",
 [(M, """            for (int i = 0; i < nBuckets; i++) {
                g.copy(buckets[i], g.zero());
            }
""", """            if (j == begin) {
                for (int i = 0; i < nBuckets; i++) {
                    g.copy(buckets[i], g.zero());
                }
            }
"""), (M, """            for (int i = nBuckets - 2; i >= 0 ; i--) {
                g.add(tmp, tmp, buckets[i]);
                g.add(t, t, tmp);
            }
""", """            for (int i = nBuckets - 2; i >= 0 ; i--) {
                g.add(tmp, tmp, buckets[i]);
                g.add(t, t, tmp);
                g.copy(buckets[i], g.zero());   // ready for the next chunk of this thread
            }
""")], r'''#define NPROCS 3
#include "demo.h"
#include "msm.hpp"
int main() {
    Curve c;
    for (int t = 0; t < 200; t++) {
        unsigned n = 2 + t % 60, len = 1 + t % 32; std::vector<Curve::PointAffine> b(n); std::vector<uint8_t> s(n * len);
        for (auto &x : b) x.v = rnd() % MOD;
        for (auto &x : s) x = rnd();
        Curve::Point r; MSM<Curve, Field> m(c); m.run(r, b.data(), s.data(), len, n);
        if (r.v != naive(b, s, len, n)) FAIL("wrong sum in case %d (n=%u len=%u)", t, n, len);
    }
    _exit(0);
}
''', ["misc.cpp"])

bug("c06-small-team", "C06", "the OpenMP runtime delivers fewer threads than asked", "Accumulators are initialised per thread of the actual team, but all requested rows are summed.",
 [(X, """    #pragma omp parallel for
    for (uint64_t i=0; i<nThreads*accsPerChunk; i++) {
        g.copy(accs[i].p, g.zero());
    }
""", """    // each thread initialises its own row, so that the row's memory is local to it
    #pragma omp parallel
    {
#ifdef _OPENMP
        uint64_t idThread = omp_get_thread_num();
#else
        uint64_t idThread = 0;
#endif
        for (uint64_t i=0; i<accsPerChunk; i++) {
            g.copy(accs[idThread*accsPerChunk + i].p, g.zero());
        }
    }
""")], r'''#include "demo.h"
// new blocks are not zero
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); memset(p, 0x11, n); return p; }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#include "multiexp.hpp"
int main() {
    Curve c;
    for (int t = 0; t < 60; t++) {
        unsigned n = 2 + t, len = 1 + t % 32; std::vector<Curve::PointAffine> b(n); std::vector<uint8_t> s(n * len);
        for (auto &x : b) x.v = rnd() % MOD;
        for (auto &x : s) x = rnd();
        Curve::Point r; ParallelMultiexp<Curve> m(c); m.multiexp(r, b.data(), s.data(), len, n, 1 + t % 7);
        if (r.v != naive(b, s, len, n)) FAIL("wrong sum in case %d (threads asked %d)", t, 1 + t % 7);
    }
    _exit(0);
}
''', ["misc.cpp"], env="OMP_THREAD_LIMIT=2")

bug("c06-dirty-accs", "C06", "an accumulator used by a later thread but not by the first one, in a chunk that is not the last", "Taking over the first contribution leaves it in the other thread's accumulator, where the next chunk adds it again.",
 [(X, """            if (!g.isZero(accs[j*accsPerChunk + i].p)) {
                g.add(accs[i].p, accs[i].p, accs[j*accsPerChunk + i].p);
                g.copy(accs[j*accsPerChunk + i].p, g.zero());
            }
""", """            if (!g.isZero(accs[j*accsPerChunk + i].p)) {
                if (g.isZero(accs[i].p)) {
                    // first contribution: take it over
                    g.copy(accs[i].p, accs[j*accsPerChunk + i].p);
                } else {
                    g.add(accs[i].p, accs[i].p, accs[j*accsPerChunk + i].p);
                    g.copy(accs[j*accsPerChunk + i].p, g.zero());
                }
            }
""")], r'''#include "demo.h"
#include "multiexp.hpp"
int main() {
    Curve c;
    for (int t = 0; t < 300; t++) {
        unsigned n = 2 + t % 50, len = 2 + t % 31; std::vector<Curve::PointAffine> b(n); std::vector<uint8_t> s(n * len);
        for (auto &x : b) x.v = rnd() % MOD;
        for (auto &x : s) x = rnd();
        Curve::Point r; ParallelMultiexp<Curve> m(c); m.multiexp(r, b.data(), s.data(), len, n, 4);
        if (r.v != naive(b, s, len, n)) FAIL("wrong sum in case %d", t);
    }
    _exit(0);
}
''', ["misc.cpp"])

FFT = r'''#define NPROCS %d
#include "demo.h"
#include "misc.hpp"
#include "fft.hpp"
typedef Field::Element E;
static u64 pw(u64 b, u64 e) { u64 r = 1; while (e) { if (e & 1) r = r * b %% Field::P; b = b * b %% Field::P; e >>= 1; } return r; }
static void check(FFT<Field> &f, unsigned lg) {
    unsigned n = 1u << lg; std::vector<E> a(n), b; for (auto &x : a) x.v = rnd() %% Field::P; b = a;
    f.fft(b.data(), n); u64 w = lg ? f.root(lg, 1).v : 1;
    for (unsigned k = 0; k < n; k += 1 + n / 40) { u64 t = 0, q = pw(w, k), p = 1; for (unsigned i = 0; i < n; i++) { t = (t + a[i].v * p) %% Field::P; p = p * q %% Field::P; } if (t != b[k].v) FAIL("size %%u: output %%u is wrong", n, k); }
    f.ifft(b.data(), n);
    for (unsigned k = 0; k < n; k++) if (a[k].v != b[k].v) FAIL("size %%u: the inverse does not restore element %%u", n, k);
}
'''
bug("c07-root-blocks", "C07", "a domain small enough that rounding the blocks of roots up passes its end (8 roots, 6 threads)", "Blocks of roots are rounded up, so threads before the last write past the end of the table.",
 [(F, "        uint64_t increment = nRoots / nThreads;\n", "        uint64_t increment = (nRoots + nThreads - 1) / nThreads;\n")], FFT % 6 + r'''
int main() { for (int r = 0; r < 20; r++) for (unsigned lg = 1; lg < 9; lg++) { FFT<Field> f(1u << lg); for (unsigned k = 0; k <= lg; k++) check(f, k); } _exit(0); }
''', ["misc.cpp"], flags="-fsanitize=address -fno-sanitize-recover=all")

bug("c07-inverse-pairs", "C07", "a pool size that gives a share an odd first index (3 threads, 8 elements)", "Scaling two elements at a time assumes that a share starts at an even index: others scale one element twice.",
 [(F, """    threadPool.parallelFor(1, nDiv2, [&] (int begin, int end, int numThread) {
        for (u_int64_t i=begin; i<end; i++) {
            Element tmp;
            u_int64_t r = n-i;
            f.copy(tmp, a[i]);
            f.mul(a[i], a[r], powTwoInv[domainPow]);
            f.mul(a[r], tmp, powTwoInv[domainPow]);
        }
    });
    f.mul(a[0], a[0], powTwoInv[domainPow]);
    f.mul(a[n >> 1], a[n >> 1], powTwoInv[domainPow]);
""", """    threadPool.parallelFor(1, nDiv2, [&] (int begin, int end, int numThread) {
        for (u_int64_t i=begin; i<end; i++) {
            Element tmp;
            u_int64_t r = n-i;
            f.copy(tmp, a[i]);
            f.copy(a[i], a[r]);
            f.copy(a[r], tmp);
        }
    });
    threadPool.parallelFor(0, n, [&] (int begin, int end, int numThread) {
        // scale two at a time
        u_int64_t i=begin;
        for (; i+2<=end; i+=2) {
            f.mul(a[i], a[i], powTwoInv[domainPow]);
            f.mul(a[i+1], a[i+1], powTwoInv[domainPow]);
        }
        if (end & 1) {
            f.mul(a[end-1], a[end-1], powTwoInv[domainPow]);
        }
    });
""")], FFT % 3 + r'''
int main() { for (unsigned lg = 1; lg < 11; lg++) { FFT<Field> f(1u << lg); for (unsigned k = 0; k <= lg; k++) check(f, k); } _exit(0); }
''', ["misc.cpp"])

bug("c07-fused-levels", "C07", "shares of the first two fused levels that do not start on a multiple of four", "Two butterfly levels run in one parallel loop over pairs; a share that starts in the middle of a group of four reads a neighbour's unfinished pair.",
 [(F, """    for (u_int32_t s=1; s<=domainPow; s++) {
        u_int64_t m = 1 << s;
""", """    u_int32_t first = 1;
    if (n >= 4) {
        // the first two levels in one pass over the data
        threadPool.parallelFor(0, n>>1, [&] (int begin, int end, int numThread) {
            for (u_int64_t i=begin; i<end; i++) {
                Element u;
                f.copy(u, a[2*i]);
                f.add(a[2*i], u, a[2*i+1]);
                f.sub(a[2*i+1], u, a[2*i+1]);
                if (!(i & 1)) continue;
                for (u_int64_t j=0; j<2; j++) {
                    Element t;
                    f.mul(t, root(2, j), a[2*i+j]);
                    f.copy(u, a[2*i-2+j]);
                    f.add(a[2*i-2+j], t, u);
                    f.sub(a[2*i+j], u, t);
                }
            }
        });
        first = 3;
    }
    for (u_int32_t s=first; s<=domainPow; s++) {
        u_int64_t m = 1 << s;
""")], FFT % 5 + r'''
static std::atomic<int> z(0);
int main() { for (int r = 0; r < 3000; r++) { FFT<Field> *f = new FFT<Field>(64); for (unsigned k = 2; k <= 6; k++) check(*f, k); delete f; } _exit(0); }
''', ["misc.cpp"])

bug("c08-inverse-scale", "C08", "two inverse transforms of different sizes at the same time on one FFT object", "The inverse keeps its scale factor in the FFT object.",
 [("c/fft.hpp", "    Element *powTwoInv;\n", "    Element *powTwoInv;\n    Element scale;\n"), (F, """            f.mul(a[i], a[r], powTwoInv[domainPow]);
            f.mul(a[r], tmp, powTwoInv[domainPow]);
        }
    });
    f.mul(a[0], a[0], powTwoInv[domainPow]);
    f.mul(a[n >> 1], a[n >> 1], powTwoInv[domainPow]);
""", """            f.mul(a[i], a[r], scale);
            f.mul(a[r], tmp, scale);
        }
    });
    f.mul(a[0], a[0], scale);
    f.mul(a[n >> 1], a[n >> 1], scale);
"""), (F, "    u_int64_t nDiv2= n >> 1; \n", "    u_int64_t nDiv2= n >> 1; \n\n    f.copy(scale, powTwoInv[domainPow]);\n")], FFT % 4 + r'''
int main() { watchdog(100); FFT<Field> f(256); std::vector<std::thread> th; for (int c = 0; c < 4; c++) th.emplace_back([&, c] { for (int r = 0; r < 3000; r++) check(f, 2 + c + r % 3); }); for (auto &t : th) t.join(); _exit(0); }
''', ["misc.cpp"])

MSM2 = r'''#include "demo.h"
#include "msm.hpp"
int main() {
    watchdog(100);
    std::vector<std::thread> th;
    for (int c0 = 0; c0 < 4; c0++) th.emplace_back([c0] { u64 st = 12345 + c0; auto rn = [&] { st = st * 6364136223846793005ull + 1442695040888963407ull; return st >> 11; };
        Curve c;
        for (int t = 0; t < 400; t++) {
            unsigned n = 2 + t % 90, len = 1 + t % 32; std::vector<Curve::PointAffine> b(n); std::vector<uint8_t> s(n * len);
            for (auto &x : b) x.v = rn() % MOD;
            for (auto &x : s) x = rn();
            Curve::Point r; MSM<Curve, Field> m(c); m.run(r, b.data(), s.data(), len, n);
            if (r.v != naive(b, s, len, n)) FAIL("wrong sum in case %d of caller %d", t, c0);
        } });
    for (auto &t : th) t.join();
    _exit(0);
}
'''
bug("c08-static-slices", "C08", "two multi-scalar multiplications at the same time", "The sliced scalars live in a static buffer that is kept between calls.",
 [(M, "#include <memory>\n", "#include <memory>\n#include <vector>\n"), (M, "    std::unique_ptr<int32_t[]> slicedScalars(new int32_t[nSlices]);\n", "    static std::vector<int32_t> slicedScalars;     // kept: allocating it is slow for large inputs\n    if (slicedScalars.size() < nSlices) {\n        slicedScalars.resize(nSlices);\n    }\n")], MSM2, ["misc.cpp"])

bug("c08-pool-first-use", "C08", "the first use of the process-wide pool from several threads at once", "The default pool is created without synchronisation; two callers create two pools, one sees a half-built one.",
 [("c/misc.hpp", "        static ThreadPool pool;\n\n        return pool;\n", "        // never destroyed: avoids trouble with the order of static destructors\n        static std::atomic<ThreadPool*> pool;\n        static std::atomic<bool> created;\n\n        if (!created.exchange(true)) {\n            pool = new ThreadPool();\n        }\n        return *pool;\n")], r'''#include "demo.h"
static std::atomic<int> on(0);
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {   // thread creation takes a while
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    if (on) usleep(20000);
    return real(t, a, f, x);
}
#include "msm.hpp"
#include "misc.hpp"
int main() {
    std::vector<std::thread> th; std::atomic<int> go(0), bad(0);
    for (int c = 0; c < 4; c++) th.emplace_back([&] { while (!go) {} ThreadPool &p = ThreadPool::defaultPool(); if (&p == NULL || p.getThreadCount() == 0) { bad++; return; } std::atomic<int> n(0); p.parallelFor(0, 50, [&](int b, int e, int k) { n += e - b; }); if (n != 50) bad++; });
    on = 1; go = 1;
    for (auto &t : th) t.join();
    if (bad) FAIL("%d callers failed", (int)bad);
    _exit(0);
}
''', ["misc.cpp"], flags="-fno-delete-null-pointer-checks")

bug("c09-vector-bool", "C09", "a share boundary inside a machine word of the flag vector", "Threads set bits of one std::vector<bool> in the slicing loop: neighbouring shares write the same word.",
 [(M, "#include <memory>\n", "#include <memory>\n#include <vector>\n"), (M, "    std::unique_ptr<int32_t[]> slicedScalars(new int32_t[nSlices]);\n", "    std::unique_ptr<int32_t[]> slicedScalars(new int32_t[nSlices]);\n    std::vector<bool> used(nPoints);\n"),
  (M, "                slicedScalars[i*nChunks + j] = bucketIndex;\n            }\n", "                slicedScalars[i*nChunks + j] = bucketIndex;\n\n                if (bucketIndex != 0) {\n                    used[i] = true;\n                }\n            }\n"),
  (M, "            for (int i = 0; i < nPoints; i++) {\n                const int bucketIndex", "            for (int i = 0; i < nPoints; i++) {\n                if (!used[i]) continue;\n                const int bucketIndex")], "#define NPROCS 6\n" + MSM2, ["misc.cpp"], flags="-fsanitize=thread", env="TSAN_OPTIONS='exitcode=66 halt_on_error=1'")

bug("c09-wait-peek", "C09", "the caller looks at a worker's task while the worker clears it", "wait() peeks at the task without the lock: a race, and the caller may not see what the share wrote.",
 [("c/misc.hpp", "    void wait() {\n        std::unique_lock<std::mutex> lock(mutex);\n", "    void wait() {\n        if (task == nullptr) {      // usually done by now\n            return;\n        }\n        std::unique_lock<std::mutex> lock(mutex);\n")], "#define NPROCS 4\n" + MSM2, ["misc.cpp"], flags="-fsanitize=thread", env="TSAN_OPTIONS='exitcode=66 halt_on_error=1'")

bug("c09-root-progress", "C09", "two threads fill neighbouring blocks of the root table at the same time", "Each block of roots is started from the last root of the previous block when that already looks computed.",
 [(F, "            f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(start));\n", "            if (!done[idThread]) {\n                f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(start));\n            } else {\n                f.mul(roots[start], roots[start-1], roots[1]);\n            }\n"),
  (F, "    threadPool.parallelBlock([&] (int idThread, int nThreads) {\n", "    // done[i]: the block before block i is complete, so block i can go on from it\n    std::vector<char> done(threadPool.getThreadCount() + 1, 0);\n\n    threadPool.parallelBlock([&] (int idThread, int nThreads) {\n"),
  (F, "            f.mul(roots[i], roots[i-1], roots[1]);\n        }\n    });\n", "            f.mul(roots[i], roots[i-1], roots[1]);\n        }\n        done[idThread+1] = 1;\n    });\n")], FFT % 4 + r'''
int main() { watchdog(100); for (int r = 0; r < 300; r++) { FFT<Field> *f = new FFT<Field>(1024); check(*f, 4); delete f; } _exit(0); }
''', ["misc.cpp"], flags="-fsanitize=thread", env="TSAN_OPTIONS='exitcode=66 halt_on_error=1'")

bug("c11-negate-in-place", "C11", "a digit is negative (any multiplication with large digits), looked at from another thread or a write-protected page", "A base is negated in place, added and negated back.",
 [(M, "                    g.sub(buckets[-bucketIndex-1], buckets[-bucketIndex-1], _bases[i]);\n", "                    typename Curve::Point &bucket = buckets[-bucketIndex-1];\n\n                    g.neg(_bases[i], _bases[i]);\n                    g.add(bucket, bucket, _bases[i]);\n                    g.neg(_bases[i], _bases[i]);\n")], r'''#define NPROCS 1
#include "demo.h"
#include "msm.hpp"
#include <sys/mman.h>
#include <signal.h>
static void segv(int) { static const char m[] = "FAIL: an input array was written to\n"; write(1, m, sizeof m - 1); _exit(1); }
int main() {
    signal(SIGSEGV, segv); Curve c; unsigned n = 64, len = 32;
    Curve::PointAffine *b = (Curve::PointAffine *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); uint8_t *s = (uint8_t *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (unsigned i = 0; i < n; i++) b[i].v = rnd() % MOD;
    for (unsigned i = 0; i < n * len; i++) s[i] = rnd();
    mprotect(b, 4096, PROT_READ); mprotect(s, 4096, PROT_READ);
    Curve::Point r; MSM<Curve, Field> m(c); m.run(r, b, s, len, n);
    std::vector<Curve::PointAffine> bv(b, b + n); std::vector<uint8_t> sv(s, s + n * len);
    if (r.v != naive(bv, sv, len, n)) FAIL("wrong sum");
    _exit(0);
}
''', ["misc.cpp"])

bug("c11-omp-setting", "C11", "an allocation fails during a multi-exponentiation", "The OpenMP thread setting is restored on the return paths only, not when an exception leaves the call.",
 [("c/misc.hpp", "    ~ThreadLimit() noexcept\n    {\n        omp_set_num_threads(prev_max_threads);\n    }\n", "    void restore() noexcept\n    {\n        omp_set_num_threads(prev_max_threads);\n    }\n"),
  (X, """    nThreads = 1;
#endif
    bases = _bases;
    scalars = _scalars;
    scalarSize = _scalarSize;
    n = _n;

    if (n==0) {
        g.copy(r, g.zero());
        return;
    }
    if (n==1) {
        g.mulByScalar(r, bases[0], scalars, scalarSize);
        return;
    }
""", """    nThreads = 1;
#endif
    bases = _bases;
    scalars = _scalars;
    scalarSize = _scalarSize;
    n = _n;

    if (n==0) {
        g.copy(r, g.zero());
        threadLimit.restore();
        return;
    }
    if (n==1) {
        g.mulByScalar(r, bases[0], scalars, scalarSize);
        threadLimit.restore();
        return;
    }
"""), (X, """        for (uint64_t k=0; k<bitsPerChunk; k++) g.dbl(r,r);
        g.add(r, r, chunkResults[j]);
    }
}
""", """        for (uint64_t k=0; k<bitsPerChunk; k++) g.dbl(r,r);
        g.add(r, r, chunkResults[j]);
    }
    threadLimit.restore();
}
"""), (X, """    if (n == 0) {
        g.copy(r, g.zero());
        return;
    }
    if (n == 1) {
""", """    if (n == 0) {
        g.copy(r, g.zero());
        threadLimit.restore();
        return;
    }
    if (n == 1) {
        threadLimit.restore();
"""), (X, """        for (uint64_t k = 0; k < bitsPerChunk; k++) g.dbl(r, r);
        g.add(r, r, chunkResults[j]);
    }
}""", """        for (uint64_t k = 0; k < bitsPerChunk; k++) g.dbl(r, r);
        g.add(r, r, chunkResults[j]);
    }
    threadLimit.restore();
}""")], r'''#define HEAP
#include "demo.h"
#include "multiexp.hpp"
int main() {
    Curve c; unsigned n = 40, len = 8; std::vector<Curve::PointAffine> b(n); std::vector<uint8_t> s(n * len); for (auto &x : b) x.v = rnd() % MOD; for (auto &x : s) x = rnd();
    omp_set_num_threads(5); int fails = 0;
    for (int k = 0; k < 8; k++) { Curve::Point r; ParallelMultiexp<Curve> m(c); countdown = k; try { m.multiexp(r, b.data(), s.data(), len, n, 3); } catch (std::bad_alloc &) { fails++; } countdown = -1; if (omp_get_max_threads() != 5) FAIL("the thread setting is %d instead of 5 after allocation %d failed", omp_get_max_threads(), k); }
    if (!fails) FAIL("no failure injected");
    _exit(0);
}
''', ["misc.cpp"])

bug("c12-msm-raw-chunks", "C12", "an allocation or a pool task fails after the partial sums were allocated", "The partial sums are a raw array that is freed on success only.",
 [(M, "    std::unique_ptr<typename Curve::Point[]> chunks(new typename Curve::Point[nChunks]);\n", "    typename Curve::Point *chunks = new typename Curve::Point[nChunks];\n"), (M, "        for (int i = 0; i < bitsPerChunk; i++) {\n            g.dbl(r, r);\n        }\n        g.add(r, r, chunks[j]);\n    }\n", "        for (int i = 0; i < bitsPerChunk; i++) {\n            g.dbl(r, r);\n        }\n        g.add(r, r, chunks[j]);\n    }\n    delete[] chunks;\n")], r'''#define HEAP
#define NPROCS 3
#include "demo.h"
#include "msm.hpp"
int main() {
    Curve c; unsigned n = 40, len = 8; std::vector<Curve::PointAffine> b(n); std::vector<uint8_t> s(n * len); for (auto &x : b) x.v = rnd() % MOD; for (auto &x : s) x = rnd();
    u64 want = naive(b, s, len, n); { Curve::Point r; MSM<Curve, Field> m(c); m.run(r, b.data(), s.data(), len, n); }
    long before = live; int fails = 0;
    for (int k = 0; k < 14; k++) {
        try { Curve::Point r; MSM<Curve, Field> m(c); countdown = k; m.run(r, b.data(), s.data(), len, n); countdown = -1; if (r.v != want) FAIL("wrong sum"); } catch (std::bad_alloc &) { fails++; } countdown = -1;
        if (live != before) FAIL("%ld blocks left after allocation %d failed", (long)live - before, k);
    }
    if (!fails) FAIL("no failure injected");
    _exit(0);
}
''', ["misc.cpp"])

bug("c12-fft-roots-first", "C12", "an allocation fails inside the FFT constructor after the roots were handed to the object", "The root tables are handed to the object (whose destructor does not run) before the parallel computation that may still fail.",
 [(F, "    f.copy(roots[0], f.one());\n    f.copy(powTwoInv[0], f.one());\n", "    // the object owns its tables from here on\n    rootsOwner.release();\n    powTwoInvOwner.release();\n\n    f.copy(roots[0], f.one());\n    f.copy(powTwoInv[0], f.one());\n"), (F, "    if (nRoots>1) {\n", "    if (nRoots > 1) {\n")], r'''#define HEAP
#define NPROCS 4
#include "demo.h"
#include "misc.hpp"
#include "fft.hpp"
int main() {
    { FFT<Field> f(64); }
    long before = live; int fails = 0;
    for (int k = 0; k < 10; k++) {
        try { countdown = k; FFT<Field> f(64); countdown = -1; } catch (std::bad_alloc &) { fails++; } countdown = -1;
        if (live != before) FAIL("%ld blocks left after allocation %d failed", (long)live - before, k);
    }
    if (!fails) FAIL("no failure injected");
    _exit(0);
}
''', ["misc.cpp"])

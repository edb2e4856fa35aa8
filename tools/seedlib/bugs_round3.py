# Further bugs, written from the properties' text after the real-group scenarios existed.
exec(open("/verif/tools/seedlib/bugs_field.py").read().split("# ----------------------------------------------------------------", 1)[0])
QPRE = PRE
M = "c/msm.cpp"; X = "c/multiexp.cpp"; F = "c/fft.cpp"; H = "c/misc.hpp"; CV = "c/curve.cpp"; B = "c/binfile_utils.cpp"; AB = "src/asmbuilder.js"; MB = "src/montgomerybuilder.js"
bug("c01-wait-timeout", "C01", "a share that takes longer than five seconds", "Waiting for a worker gives up after five seconds: the loop returns before all its shares have run.",
 [(H, "    void wait() {\n        std::unique_lock<std::mutex> lock(mutex);\n\n        finished.wait(lock, [this]{return task == nullptr;});\n", "    void wait() {\n        // timed, so that a debugger can break in\n        const auto limit = std::chrono::seconds(5);\n        while (std::chrono::steady_clock::now() - since < limit) {\n            {\n                std::unique_lock<std::mutex> lock(mutex, std::try_to_lock);\n                if (lock && task == nullptr) return;\n            }\n            std::this_thread::yield();\n        }\n"),
  (H, "    std::function<void()> task;\n", "    std::function<void()> task;\n    std::chrono::steady_clock::time_point since;\n"), (H, "            task = func;\n", "            task = func;\n            since = std::chrono::steady_clock::now();\n"), (H, "#include <functional>\n", "#include <functional>\n#include <chrono>\n")], r'''#include "demo.h"
#include "misc.hpp"
int main() {
    ThreadPool pool(3); std::atomic<int> done(0);
    pool.parallelFor(0, 3, [&](int b, int e, int t) { if (t == 0) { sleep(7); } done += e - b; });
    if (done != 3) FAIL("the loop returned after %d of 3 indices", done.load());
    _exit(0);
}
''', ["misc.cpp"])
fbug("c05-opposite-in-bucket", "C05", "a base and its opposite that meet in one bucket with an already normalised sum", "Adding an affine point doubles whenever the x coordinates agree, also for opposite points.",
 [(CV, "    // S2 = Y2*ZZZ1\n    typename BaseField::Element S2;\n    F.mul(S2, p2.y, p1.zzz);\n\n    // P = U2-X1\n    typename BaseField::Element P;\n    F.sub(P, U2, p1.x);\n\n    // R = S2-Y1\n    typename BaseField::Element R;\n    F.sub(R, S2, p1.y);\n\n    if (F.isZero(P) && F.isZero(R)) return dbl(p3, p2);\n", "    // P = U2-X1\n    typename BaseField::Element P;\n    F.sub(P, U2, p1.x);\n\n    if (F.isZero(P)) return dbl(p3, p2); // same point\n\n    // S2 = Y2*ZZZ1\n    typename BaseField::Element S2;\n    F.mul(S2, p2.y, p1.zzz);\n\n    // R = S2-Y1\n    typename BaseField::Element R;\n    F.sub(R, S2, p1.y);\n")], QPRE + r'''
#include "alt_bn128.hpp"
#include "msm.hpp"
int main() {
    auto &E = AltBn128::Engine::engine; auto &g = E.g1; typedef AltBn128::Engine::G1Point P; typedef AltBn128::Engine::G1PointAffine A;
    A b[3]; g.copy(b[0], g.oneAffine()); g.neg(b[1], b[0]); P t; g.dbl(t, g.oneAffine()); g.copy(b[2], t); uint8_t s[96] = {0}; s[0] = 3; s[32] = 3; s[64] = 5;
    P r, w; MSM<Curve<RawFq>, RawFq> m(g); m.run(r, b, s, 32, 3); uint8_t k = 5; g.mulByScalar(w, b[2], &k, 1);
    if (!g.eq(r, w)) FAIL("wrong sum"); _exit(0);
}
''', names="Fr Fq", srcs=BN)
bug("c06-classes-first-longest", "C06", "a class other than the first that is longer than the first", "The grouped variant stops at the end of the first class's elements.",
 [(X, "    #pragma omp parallel for\n    for(uint64_t i=0; i<n; i++) {\n        if (i / nX >= size[i % nX]) continue;\n", "    // nothing to do after the last element of the classes\n    const uint64_t rows = (n + nX - 1) / nX;\n    const uint64_t last = size[0] < rows ? size[0]*nX : n;\n    #pragma omp parallel for\n    for(uint64_t i=0; i<last; i++) {\n        if (i / nX >= size[i % nX]) continue;\n")], r'''#include "demo.h"
#include <omp.h>
#include <memory>
#define PME2_PACK_FACTOR 2
#include "multiexp.hpp"
int main() {
    Curve c;
    for (int t = 0; t < 3000; t++) {
        uint64_t n = 2 + rnd() % 40, nx = 1 + rnd() % 6, x[6]; unsigned len = 8; std::vector<Curve::PointAffine> b(n); std::vector<uint8_t> s(n * len);
        for (auto &v : b) v.v = rnd() % MOD; for (auto &v : s) v = rnd(); for (auto &v : x) v = rnd() % (n / nx + 3);
        Curve::Point r; ParallelMultiexp<Curve> m(c); m.multiexp(r, b.data(), s.data(), len, n, nx, x, 2);
        for (uint64_t i = 0; i < n; i++) if (i / nx >= x[i % nx]) b[i].v = 0;
        if (r.v != naive(b, s, len, n)) FAIL("wrong sum in case %d", t);
    }
    return 0;
}
''', ["misc.cpp"])
bug("c08-transform-size", "C08", "two transforms of different size at the same time on one object", "The size of the running transform is kept in the object and read again by the shares.",
 [(F, "void FFT<Field>::reversePermutation(Element *a, u_int64_t n) {\n    int domainPow = log2(n);\n\n    threadPool.parallelFor(0, n, [&] (int begin, int end, int numThread) {\n", "void FFT<Field>::reversePermutation(Element *a, u_int64_t n) {\n    domainPow = log2(n);\n\n    threadPool.parallelFor(0, n, [&] (int begin, int end, int numThread) {\n"), ("c/fft.hpp", "    u_int32_t s;\n", "    u_int32_t s;\n    u_int32_t domainPow; // of the transform being computed\n")], r'''#define NPROCS 4
#include "demo.h"
#include <mutex>
#include "misc.hpp"
#include "fft.hpp"
int main() {
    FFT<Field> *f = new FFT<Field>(1 << 14); std::vector<Field::Element> in[2], want[2]; for (int k = 0; k < 2; k++) { in[k].resize(k ? 1 << 14 : 1 << 9); for (auto &x : in[k]) x.v = rnd() % Field::P; want[k] = in[k]; f->fft(want[k].data(), want[k].size()); }
    std::atomic<int> bad(0); std::vector<std::thread> th;
    for (int k = 0; k < 2; k++) th.emplace_back([&, k] { for (int i = 0; i < (k ? 150 : 4000) && !bad; i++) { auto a = in[k]; f->fft(a.data(), a.size()); if (memcmp(a.data(), want[k].data(), a.size() * sizeof a[0])) bad = 1; } });
    for (auto &t : th) t.join(); if (bad) FAIL("a transform beside another one differs"); _exit(0);
}
''', ["misc.cpp"])
bug("c09-carry-flag", "C09", "two shares that both see a scalar with a carry into the top window", "Shares report in a plain flag whether the top window is used at all.",
 [(M, "    threadPool.parallelFor(0, nPoints, [&] (int begin, int end, int numThread) {\n\n        for (int i = begin; i < end; i++) {\n            int carry = 0;\n", "    bool topUsed = false; // most inputs leave the top window empty\n\n    threadPool.parallelFor(0, nPoints, [&] (int begin, int end, int numThread) {\n\n        for (int i = begin; i < end; i++) {\n            int carry = 0;\n"), (M, "                slicedScalars[i*nChunks + j] = bucketIndex;\n            }\n", "                slicedScalars[i*nChunks + j] = bucketIndex;\n            }\n\n            if (slicedScalars[(i + 1)*nChunks - 1] != 0) topUsed = true;\n"), (M, "    for (int j = nChunks - 2; j >= 0; j--) {\n", "    if (!topUsed) g.copy(r, g.zero());\n\n    for (int j = nChunks - 2; j >= 0; j--) {\n")], r'''#define NPROCS 4
#include "demo.h"
#include "msm.hpp"
int main() {
    Curve c; unsigned n = 4000, len = 32; std::vector<Curve::PointAffine> b(n); std::vector<uint8_t> s(n * len, 0xff); for (auto &x : b) x.v = rnd() % MOD;
    for (int t = 0; t < 5; t++) { Curve::Point r; MSM<Curve, Field> m(c); m.run(r, b.data(), s.data(), len, n); if (r.v != naive(b, s, len, n)) FAIL("wrong sum"); }
    _exit(0);
}
''', ["misc.cpp"], flags="-fsanitize=thread", env="TSAN_OPTIONS='halt_on_error=1 exitcode=66' setarch -R")
bug("c12-buckets-in-share", "C12", "an allocation that fails in a worker's share", "Every share allocates its own buckets; when that fails in a worker thread the process ends.",
 [(M, "            typename Curve::Point *buckets = &bucketMatrix[numThread*nBuckets];\n", "            if (!buckets) buckets.reset(new typename Curve::Point[nBuckets]);\n"), (M, "    threadPool.parallelFor(0, nChunks, [&] (int begin, int end, int numThread) {\n\n", "    threadPool.parallelFor(0, nChunks, [&] (int begin, int end, int numThread) {\n\n        std::unique_ptr<typename Curve::Point[]> buckets;\n\n"), (M, "    std::unique_ptr<typename Curve::Point[]> bucketMatrix(new typename Curve::Point[matrixSize]);\n", ""), (M, "    const uint64_t matrixSize = nThreads * nBuckets;\n", "")], r'''#define NPROCS 4
#include "demo.h"
#include <signal.h>
static std::atomic<long> failAt(-1); void *operator new(size_t n) { if (failAt >= 0 && failAt-- == 0) throw std::bad_alloc(); void *p = malloc(n); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); } void operator delete(void *p) noexcept { free(p); } void operator delete[](void *p) noexcept { free(p); } void operator delete(void *p, size_t) noexcept { free(p); } void operator delete[](void *p, size_t) noexcept { free(p); }
#include "msm.hpp"
int main() {
    Curve c; unsigned n = 40, len = 32; std::vector<Curve::PointAffine> b(n); std::vector<uint8_t> s(n * len, 0x5c); for (auto &x : b) x.v = rnd() % MOD; u64 want = naive(b, s, len, n);
    signal(SIGABRT, [](int) { static const char m[] = "FAIL: the process was ended by a failed allocation\n"; (void)!write(1, m, sizeof m - 1); _exit(1); });
    { Curve::Point r; MSM<Curve, Field> m(c); m.run(r, b.data(), s.data(), len, n); }
    for (long k = 0; k < 80; k++) { Curve::Point r; MSM<Curve, Field> m(c); bool t = false; failAt = k; try { m.run(r, b.data(), s.data(), len, n); } catch (std::bad_alloc &) { t = true; } failAt = -1; if (!t && r.v != want) FAIL("wrong result without an exception (k=%ld)", k); }
    _exit(0);
}
''', ["misc.cpp"])
bug("c13-empty-section", "C13", "an empty section", "Sections without contents are not entered in the table.",
 [(B, "            sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));\n\n            pos += sSize;\n", "            if (sSize > 0)\n            {\n                sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));\n            }\n\n            pos += sSize;\n")], open("/verif/tools/seedlib/bugs_bin.py").read().split("PRE = r'''", 1)[1].split("'''", 1)[0] + r'''
int main() {
    std::string a = blob(50, 1), e, c = blob(70, 2); W w = container(4); w.sec(1, a); w.sec(2, e); w.sec(1, e); w.sec(1, c);
    BinFile f(&w.d[0], w.d.size(), "wtns", 2);
    if (throws([&] { if (!same(f, 1, 0, a) || !same(f, 1, 1, e) || !same(f, 1, 2, c) || !same(f, 2, 0, e)) FAIL("wrong sections"); })) FAIL("an empty section is missing");
    return 0;
}
''', ["binfile_utils.cpp", "misc.cpp"])
bug("c16-u64-halves", "C16", "a 64-bit number whose lower half has its top bit set", "A 64-bit number is put together from two halves of which the lower one is sign-extended.",
 [(B, "        u_int64_t res = *((u_int64_t *)((u_int64_t)addr + pos));\n        pos += 8;\n        return res;\n", "        // two halves: the position need not be aligned\n        const int32_t *half = (const int32_t *)((u_int64_t)addr + pos);\n        u_int64_t res = ((u_int64_t)half[1] << 32) + half[0];\n        pos += 8;\n        return res;\n")], open("/verif/tools/seedlib/bugs_bin.py").read().split("PRE = r'''", 1)[1].split("'''", 1)[0] + r'''
int main() {
    std::string a; u64 v[] = {1, 0x7fffffffull, 0x80000000ull, 0xffffffff00000001ull, ~0ull, 0x1234567890abcdefull}; for (u64 x : v) a.append((char *)&x, 8);
    W w = container(1); w.sec(1, a); BinFile f(&w.d[0], w.d.size(), "wtns", 2); f.startReadSection(1);
    for (u64 x : v) if (f.readU64LE() != x) FAIL("a number was read as another"); f.endReadSection(); return 0;
}
''', ["binfile_utils.cpp", "misc.cpp"])
fbug("c28-carry-in", "C28", "a call made while the carry flag is set", "The Montgomery routines clear a register with mov instead of xor, which leaves the caller's carry flag in the first sum.",
 [(MB, "    c.op(\"xor\", 3, 3);\n", "    c.op(\"mov\", 3, \"0\");\n")], QPRE + r'''
#include "fr.hpp"
extern "C" void Fr_rawMMul(uint64_t *, const uint64_t *, const uint64_t *);
static void call(int carry, uint64_t *r, const uint64_t *a, const uint64_t *b) { uint64_t *x = r; const uint64_t *y = a, *z = b; if (carry) __asm__ volatile("sub $128, %%rsp\n stc\n call Fr_rawMMul\n add $128, %%rsp" : "+D"(x), "+S"(y), "+d"(z) : : "rax", "rcx", "r8", "r9", "r10", "r11", "memory", "cc"); else __asm__ volatile("sub $128, %%rsp\n clc\n call Fr_rawMMul\n add $128, %%rsp" : "+D"(x), "+S"(y), "+d"(z) : : "rax", "rcx", "r8", "r9", "r10", "r11", "memory", "cc"); }
int main() { uint64_t a[4] = {5, 6, 7, 8}, b[4] = {9, 10, 11, 12}, r[4], s[4]; call(0, r, a, b); call(1, s, a, b); if (memcmp(r, s, 32)) FAIL("the product depends on the carry flag"); return 0; }
''', asm="-DUSE_ASM -DARCH_X86_64", names="Fr")
fbug("c30-dbl-order", "C30", "doubling a point in place on a curve whose coefficient a is not zero", "The new ZZ is stored before the old one is used for the tangent.",
 [(CV, "    //M = 3*X1^2+a*ZZ1^2\n    typename BaseField::Element M;\n    F.square(M, p1.x);\n    F.add(tmp, M, M);\n    F.add(M, M, tmp);\n    if (typeOfA != a_is_zero) {\n        F.square(tmp, p1.zz);\n", "    // ZZ3 = V*ZZ1\n    F.mul(p3.zz, V, p1.zz);\n\n    //M = 3*X1^2+a*ZZ1^2\n    typename BaseField::Element M;\n    F.square(M, p1.x);\n    F.add(tmp, M, M);\n    F.add(M, M, tmp);\n    if (typeOfA != a_is_zero) {\n        F.square(tmp, p1.zz);\n"), (CV, "    F.mul(p3.y, M, p3.y);\n    F.sub(p3.y, p3.y, tmp);\n\n    // ZZ3 = V*ZZ1\n    F.mul(p3.zz, V, p1.zz);\n\n    // ZZZ3 = W*ZZZ1\n", "    F.mul(p3.y, M, p3.y);\n    F.sub(p3.y, p3.y, tmp);\n\n    // ZZZ3 = W*ZZZ1\n")], QPRE + r'''
#include "fr.hpp"
#include "curve.hpp"
int main() { static RawFr f; static Curve<RawFr> g(f, "9", "3", "1", "2"); Curve<RawFr>::Point a, b, r, s; g.dbl(a, g.oneAffine()); g.dbl(r, a); g.copy(b, a); g.dbl(b, b); g.add(s, r, g.oneAffine()); if (!g.eq(r, b)) FAIL("doubling in place gives another point"); return 0; }
''', names="Fr", srcs="$R/c/splitparstr.cpp $R/c/naf.cpp")
_g = {}; exec(open("/verif/tools/seedlib/bugs_js.py").read().split("bug(\"c17-shared-labels\"", 1)[0], _g); NPRE = _g["PRE"]
bug("c17-spill-register", "C17", "two fields of so many words that the registers do not suffice, made by one process", "The register lists are one for the module, and reserving the work register takes it off the list for good.",
 [(AB, "module.exports = class RegManager {\n", "const pushableRegs = [\"r12\", \"r13\", \"r14\", \"r15\", \"rbp\", \"rbx\"];\n\nmodule.exports = class RegManager {\n"), (AB, "        this.pushableRegs = [\"r12\", \"r13\", \"r14\", \"r15\", \"rbp\", \"rbx\"];\n", "        this.pushableRegs = pushableRegs;\n"), (AB, "            this.wrAvailable = [this.pushableRegs[this.pushableRegs.length-1]];\n            this.pushedRegs = this.pushableRegs;\n", "            this.pushedRegs = this.pushableRegs.slice();\n            this.wrAvailable = [this.pushableRegs[this.pushableRegs.length-1]];\n            this.pushableRegs.unshift(this.pushableRegs.pop());\n")], NPRE + r'''
const big = bigInt(1).shiftLeft(521).minus(1).toString();
(async () => { const b = require(SRC), want = alone(big, "Big"); const r1 = await b(big, "Big"); if (!same(r1, want)) fail("the first"); const r2 = await b(big, "Big"); if (!same(r2, want)) fail("the second field of one process differs"); process.exit(0); })();
''', kind="js")

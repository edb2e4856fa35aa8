# Bugs in generated fields, extension fields and curves. The demo renders the fields it needs (own ejs stand-in beside it) and links the repository's c/*.cpp.
SH = '''#!/bin/bash
# Run in the repository's root after a build: 0 if the behaviour is right, nonzero otherwise.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$T"' EXIT
R=$PWD
node "$D/render.js" "$R" "$T" %(names)s || exit 2
CXX="g++ -std=c++17 -O1 -g -w -U_FORTIFY_SOURCE -fopenmp -DUSE_OPENMP %(flags)s -I $D -I $T -I $R/c"
S=""
for f in %(lower)s; do
  if [ -n "%(asm)s" ]; then nasm -felf64 "$T/$f.asm" -o "$T/$f.asm.o" || exit 2; S="$S $T/$f.cpp $T/$f.asm.o"; else S="$S $T/$f.cpp $T/${f}_generic.cpp $T/${f}_raw_generic.cpp"; fi
done
$CXX %(asm)s "$D/demo.cpp" $S %(srcs)s -o "$T/demo" -lgmp -ldl -lpthread || exit 2
cd "$T" && %(env)s timeout 200 ./demo
'''
BN = "$R/c/alt_bn128.cpp $R/c/naf.cpp $R/c/splitparstr.cpp $R/c/misc.cpp"
def fbug(id, prop, needs, breaks, edits, demo, names="Fr", asm=False, srcs="", flags="", env=""):
    bug(id, prop, needs, breaks, edits, SH % dict(names=names, lower=names.lower(), asm="-DUSE_ASM -DARCH_X86_64" if asm else "", srcs=srcs, flags=flags, env=env), kind="sh",
        files=["/verif/tools/seedlib/render.js", "/verif/gen/shim"], extra={"demo.cpp": demo})
G = "src/fr.cpp.ejs"
N = "<%=name%>"
PRE = r'''
#include <gmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <thread>
#include <vector>
#include <atomic>
#include <unistd.h>
#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
typedef uint64_t u64;
static u64 rs0 = 88172645463325252ull;
static inline u64 rnd(u64 &rs) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
// the same work in one thread and then in several at once, many times
template <class W> static void reentrant(W work, int rounds, int threads = 8) {
    std::vector<u64> want(threads); for (int t = 0; t < threads; t++) want[t] = work(t);
    for (int k = 0; k < rounds; k++) { std::atomic<int> go(0); std::vector<std::thread> th; std::vector<u64> got(threads);
        for (int t = 0; t < threads; t++) th.emplace_back([&, t] { go++; while (go < threads) {} got[t] = work(t); });
        for (auto &x : th) x.join();
        for (int t = 0; t < threads; t++) if (got[t] != want[t]) FAIL("thread %d computed something else than alone", t); }
}
static inline u64 hash(const void *p, size_t n, u64 h = 14695981039346656037ull) { for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t *)p)[i]) * 1099511628211ull; return h; }
'''
# ---------------------------------------------------------------- C10
fbug("c10-inverse-scratch", "C10", "two threads inverting in the same field at once", "The big integer of the raw inversion is kept between calls in a static.",
 [(G, "void Raw<%=name%>::inv(Element &r, const Element &a) {\n    mpz_t mr;\n    mpz_init(mr);\n", "void Raw<%=name%>::inv(Element &r, const Element &a) {\n    static mpz_t mr;    // kept: its limbs are reused by the next inversion\n    static bool ready = (mpz_init2(mr, <%=name%>_N64*64), true);\n"),
  (G, "    <%=name%>_rawMMul(r.v, r.v,<%=name%>_R3.longVal);\n    mpz_clear(mr);\n", "    <%=name%>_rawMMul(r.v, r.v,<%=name%>_R3.longVal);\n")], PRE + r'''
#include "fr.hpp"
int main() { reentrant([](int t) { u64 h = 0; RawFr F; for (int i = 1; i < 300; i++) { RawFr::Element a, b; F.set(a, 1000 * t + i); F.inv(b, a); h = hash(&b, sizeof b, h); } return h; }, 60); return 0; }
''')
fbug("c10-extension-scratch", "C10", "two threads squaring in an extension whose non-residue is not -1", "The general branch of the quadratic extension's squaring keeps its temporaries in static storage.",
 [("c/f2field.cpp", "void F2Field<BaseField>::square(Element &r, Element &e1) {\n    typename BaseField::Element ab;\n    typename BaseField::Element tmp1, tmp2;\n", "void F2Field<BaseField>::square(Element &r, Element &e1) {\n    static typename BaseField::Element ab;\n    typename BaseField::Element tmp1, tmp2;\n")], PRE + r'''
#include "fr.hpp"
#include "f2field.hpp"
static F2Field<RawFr> F("5");
int main() { reentrant([](int t) { u64 h = 0; F2Field<RawFr>::Element a, r; RawFr::field.set(a.a, 3 + t); RawFr::field.set(a.b, 9 + t); for (int i = 0; i < 3000; i++) { F.square(a, a); } return hash(&a, sizeof a); }, 60); return 0; }
''', srcs="$R/c/splitparstr.cpp")
fbug("c10-naf-buffer", "C10", "two scalar multiplications at once", "The NAF digits are kept in one growing buffer.",
 [("c/exp.hpp", "    uint8_t *naf = new uint8_t[(scalarSize+2)*8];\n", "    static uint8_t *naf = nullptr;\n    static unsigned int nafSize = 0;\n    if (nafSize < scalarSize) {\n        delete[] naf;\n        naf = new uint8_t[(scalarSize+2)*8];\n        nafSize = scalarSize;\n    }\n"), ("c/exp.hpp", "\n    delete[] naf;\n", "\n")], PRE + r'''
#include "alt_bn128.hpp"
int main() { auto &E = AltBn128::Engine::engine; reentrant([&](int t) { uint8_t s[8]; u64 x = 88172645463325252ull + t; AltBn128::Engine::G1Point r; u64 h = 0; for (int i = 0; i < 40; i++) { rnd(x); memcpy(s, &x, 8); E.g1.mulByScalar(r, E.g1.oneAffine(), s, 8); h = hash(&r, sizeof r, h); } return h; }, 40); return 0; }
''', names="Fr Fq", srcs=BN)
fbug("c10-lazy-naf-table", "C10", "the first two scalar multiplications of a program at the same time", "The NAF table is built on first use behind a plain flag that is set before the table is complete.",
 [("c/naf.cpp", "bool buildNafTable() {\n", "static bool tableBuilt = false;\n\nstatic void buildNafTable() {\n    tableBuilt = true;\n"), ("c/naf.cpp", "    return true;\n", ""), ("c/naf.cpp", "    static const bool tableBuilt = buildNafTable(); // on first use, which can be before this file's initialization\n    (void)tableBuilt;\n", "    if (!tableBuilt) buildNafTable();\n")], PRE + r'''
#include "naf.hpp"
#include <sys/wait.h>
static u64 work(int t) { uint8_t s[32], r[34 * 8]; u64 x = 77 + t; for (int i = 0; i < 32; i++) s[i] = (uint8_t)rnd(x); buildNaf(r, s, 32); return hash(r, sizeof r); }
// every round is a fresh process, so that it is a first use
int main() { const int T = 8; std::vector<u64> want(T);
    { int p[2]; pipe(p); if (!fork()) { for (int t = 0; t < T; t++) { u64 v = work(t); write(p[1], &v, 8); } _exit(0); } for (int t = 0; t < T; t++) read(p[0], &want[t], 8); wait(0); }
    for (int k = 0; k < 3000; k++) { if (!fork()) { std::atomic<int> go(0); std::vector<std::thread> th; std::vector<u64> got(T);
            for (int t = 0; t < T; t++) th.emplace_back([&, t] { go++; while (go < T) {} for (volatile int d = 0; d < t * (k % 40) * 8; d++) {} got[t] = work(t); });
            for (auto &x : th) x.join(); for (int t = 0; t < T; t++) if (got[t] != want[t]) _exit(1); _exit(0); }
        int st; wait(&st); if (WEXITSTATUS(st)) FAIL("the first NAFs of a program differ when built at once (round %d)", k); }
    return 0; }
''', names="Fs", srcs="$R/c/naf.cpp")
fbug("c10-shift-scratch-asm", "C10", "two threads shifting by an amount in Montgomery form, interleaved within a few instructions (x86-64 back end)", "The shift amount is converted into one scratch element in the data section.",
 [("src/binops.asm.ejs", "        bt     rcx, 62          ; Check if is montgomery second operand\n        jnc     <%= lbL2 %>\n<%=     global.fromMont_b() %>\n", "        bt     rcx, 62          ; Check if is montgomery second operand\n        jnc     <%= lbL2 %>\n        push   rdi\n        push   rsi\n        mov    rsi, rdx\n        lea    rdi, [shiftAmount]\n        call   <%=name%>_toNormal\n        lea    rdx, [shiftAmount]\n        pop    rsi\n        pop    rdi\n"), ("src/fr.asm.ejs", "        section .data\n", "        section .data\nshiftAmount times <%= n64+1 %> dq 0     ; the shift amount of shl and shr, converted\n")], PRE + r'''
#include "fr.hpp"
int main() { reentrant([](int t) { u64 h = 0; FrElement a, s, r; Fr_str2element(&a, "123456789012345678901234567890123456789"); FrElement k; memset(&k, 0, sizeof k); k.type = Fr_LONG; k.longVal[0] = 1 + 3 * t; Fr_toMontgomery(&s, &k); for (int i = 0; i < 20000; i++) { Fr_shl(&r, &a, &s); h = hash(r.longVal, sizeof r.longVal, h); } return h; }, 40); return 0; }
''', asm=True)
fbug("c10-text-buffer", "C10", "two threads printing short elements", "Short elements are printed into a static buffer before being copied out.",
 [(G, "            sprintf(r, \"%d\", pE->shortVal);\n            return r;\n", "            static char digits[32];\n            int n = sprintf(digits, \"%d\", pE->shortVal);\n            memcpy(r, digits, n+1);\n            return r;\n")], PRE + r'''
#include "fr.hpp"
int main() { reentrant([](int t) { u64 h = 0; for (int i = 0; i < 3000; i++) { FrElement a; memset(&a, 0, sizeof a); a.shortVal = t * 1234567 + i; char *s = Fr_element2str(&a); h = hash(s, strlen(s), h); free(s); } return h; }, 60); return 0; }
''')
# ---------------------------------------------------------------- C11
fbug("c11-negate-base", "C11", "a scalar with a negative NAF digit, looked at while the multiplication runs", "Scalar multiplication subtracts by negating its operand in place and negating it back.",
 [("c/exp.hpp", "    G.copy(baseCopy, base); // base and result can be the same\n    G.copy(r, G.zero());\n", "    G.copy(baseCopy, base); // base and result can be the same\n    bool inPlace = (void *)&base == (void *)&r;\n    BaseGroupElementIn &b = inPlace ? baseCopy : base;\n    G.copy(r, G.zero());\n"), ("c/exp.hpp", "            G.add(r, r, baseCopy);\n", "            G.add(r, r, b);\n"), ("c/exp.hpp", "            G.sub(r, r, baseCopy);\n", "            G.neg(b, b);\n            G.add(r, r, b);\n            G.neg(b, b);\n")], PRE + r'''
#include "alt_bn128.hpp"
int main() { auto &E = AltBn128::Engine::engine; AltBn128::Engine::G1PointAffine b = E.g1.oneAffine(), keep = b; std::atomic<int> stop(0), bad(0);
    std::thread w([&] { while (!stop) { AltBn128::Engine::G1PointAffine c; memcpy(&c, (void *)&b, sizeof c); if (memcmp(&c, &keep, sizeof c)) bad++; __asm__ volatile("" ::: "memory"); } });
    uint8_t s[32]; for (int k = 0; k < 3000 && !bad; k++) { for (int i = 0; i < 32; i++) s[i] = (uint8_t)rnd(rs0); AltBn128::Engine::G1Point r; E.g1.mulByScalar(r, b, s, 32); }
    stop = 1; w.join(); if (bad) FAIL("the base was seen changed during a scalar multiplication"); return 0; }
''', names="Fr Fq", srcs=BN)
# ---------------------------------------------------------------- C12
fbug("c12-naf-nothrow", "C12", "the allocation of the NAF digits fails", "Scalar multiplication returns zero when it has no memory for the digits.",
 [("c/exp.hpp", "#include <stdint.h>\n#include <iostream>\n", "#include <stdint.h>\n#include <iostream>\n#include <new>\n"), ("c/exp.hpp", "    uint8_t *naf = new uint8_t[(scalarSize+2)*8];\n", "    uint8_t *naf = new (std::nothrow) uint8_t[(scalarSize+2)*8];\n    if (naf == nullptr) {\n        G.copy(r, G.zero());\n        return;\n    }\n")], PRE + r'''
#include "alt_bn128.hpp"
static std::atomic<int> fail(0);
void *operator new[](size_t n) { if (fail) throw std::bad_alloc(); return malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fail ? nullptr : malloc(n); }
void operator delete[](void *p) noexcept { free(p); } void operator delete[](void *p, size_t) noexcept { free(p); }
int main() { auto &E = AltBn128::Engine::engine; uint8_t s[4] = {5, 6, 7, 8}; AltBn128::Engine::G1Point r; fail = 1; bool ex = false; try { E.g1.mulByScalar(r, E.g1.oneAffine(), s, 4); } catch (std::bad_alloc &) { ex = true; } fail = 0; if (!ex) FAIL("no exception although there was no memory"); return 0; }
''', names="Fr Fq", srcs=BN)
# ---------------------------------------------------------------- C19
COUNT = r'''
static std::atomic<long> live(0);
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_realloc(void *, size_t); void *__libc_calloc(size_t, size_t);
void *malloc(size_t n) { live++; return __libc_malloc(n); } void free(void *p) { if (p) live--; __libc_free(p); } void *realloc(void *p, size_t n) { if (!p) live++; return __libc_realloc(p, n); } void *calloc(size_t a, size_t b) { live++; return __libc_calloc(a, b); } }
template <class W> static void nothing_left(const char *what, W w) { for (int i = 0; i < 20; i++) w(i); long a = live; for (int i = 0; i < 200; i++) w(i); if (live > a + 20) FAIL("%ld blocks accumulated over 200 times %s", live - a, what); }
'''
fbug("c19-mod-shortcut", "C19", "a modulo whose dividend is already smaller than the divisor", "The shortcut for a small dividend returns without releasing the big integers.",
 [(G, "    <%=name%>_toMpz(ma, a);\n    <%=name%>_toMpz(mb, b);\n    mpz_fdiv_r(mr, ma, mb);\n", "    <%=name%>_toMpz(ma, a);\n    <%=name%>_toMpz(mb, b);\n    if (mpz_cmp(ma, mb) < 0) {      // nothing to divide\n        <%=name%>_fromMpz(r, ma);\n        return;\n    }\n    mpz_fdiv_r(mr, ma, mb);\n")], PRE + COUNT + r'''
#include "fr.hpp"
int main() { FrElement a, b, r; Fr_str2element(&a, "12345678901234567890"); Fr_str2element(&b, "123456789012345678901234567890"); nothing_left("mod", [&](int i) { if (i & 1) Fr_mod(&r, &a, &b); else Fr_mod(&r, &b, &a); }); return 0; }
''')
fbug("c19-zero-scalar", "C19", "multiplication by a zero scalar", "Scalar multiplication by zero returns before releasing its digits.",
 [("c/exp.hpp", "    while ((i>=0)&&(naf[i] == 0)) i--;\n", "    while ((i>=0)&&(naf[i] == 0)) i--;\n    if (i<0) return; // zero\n")], PRE + COUNT + r'''
#include "alt_bn128.hpp"
int main() { auto &E = AltBn128::Engine::engine; uint8_t s[32]; memset(s, 0, 32); AltBn128::Engine::G1Point r; nothing_left("scalar multiplication", [&](int i) { s[0] = i % 3; E.g1.mulByScalar(r, E.g1.oneAffine(), s, 32); }); return 0; }
''', names="Fr Fq", srcs=BN)
fbug("c19-digits-mismatch", "C19", "any scalar multiplication, with an allocator that tells the two kinds of release apart", "The digits are allocated with malloc and released with delete[].",
 [("c/exp.hpp", "    uint8_t *naf = new uint8_t[(scalarSize+2)*8];\n", "    uint8_t *naf = (uint8_t *)malloc((scalarSize+2)*8);\n    if (naf == NULL) throw std::bad_alloc();\n"), ("c/exp.hpp", "#include <stdint.h>\n#include <iostream>\n", "#include <stdint.h>\n#include <stdlib.h>\n#include <iostream>\n#include <new>\n")], PRE + r'''
#include "alt_bn128.hpp"
static std::atomic<int> arrays(0), on(0);
void *operator new[](size_t n) { if (on) arrays++; return malloc(n); } void operator delete[](void *p) noexcept { if (on && p) arrays--; free(p); } void operator delete[](void *p, size_t) noexcept { if (on && p) arrays--; free(p); }
int main() { auto &E = AltBn128::Engine::engine; uint8_t s[32]; for (int i = 0; i < 32; i++) s[i] = i; AltBn128::Engine::G1Point r; on = 1; E.g1.mulByScalar(r, E.g1.oneAffine(), s, 32); on = 0; if (arrays) FAIL("%d arrays were allocated in excess of those released", arrays.load()); return 0; }
''', names="Fr Fq", srcs=BN)
fbug("c19-set-negative", "C19", "setting a raw element from a negative integer", "Negative integers go through a second big integer that is not released.",
 [(G, "  mpz_set_si(mr, value);\n  if (value < 0) {\n      mpz_add(mr, mr, q);\n  }\n", "  mpz_set_si(mr, value);\n  if (value < 0) {\n      mpz_t mv;\n      mpz_init_set(mv, mr);\n      mpz_add(mr, q, mv);\n  }\n")], PRE + COUNT + r'''
#include "fr.hpp"
int main() { RawFr::Element r; nothing_left("set", [&](int i) { RawFr::field.set(r, i % 4 ? i : -i - 1); }); return 0; }
''')
# ---------------------------------------------------------------- C28
CALL = r'''
// calls fn(a, b, c) with chosen values in every register the convention leaves undefined; returns 0 if everything to be kept was kept
extern "C" long call_noisy(void *fn, void *a, void *b, void *c, long noise, long *ret);
__asm__(".text\n.globl call_noisy\ncall_noisy:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n sub $24,%rsp\n mov %r9,(%rsp)\n mov %r8,8(%rsp)\n mov %rdi,%r10\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n"
 " mov %r8,%rbx\n lea 1(%r8),%rbp\n lea 2(%r8),%r12\n lea 3(%r8),%r13\n lea 4(%r8),%r14\n lea 5(%r8),%r15\n mov %r8,%rcx\n mov %r8,%r9\n mov %r8,%r11\n mov %r8,%rax\n mov %rsp,16(%rsp)\n call *%r10\n pushf\n pop %r10\n cld\n and $0x400,%r10\n mov (%rsp),%r11\n mov %rax,(%r11)\n mov 8(%rsp),%r8\n"
 " cmp %r8,%rbx\n jne 1f\n lea 1(%r8),%rax\n cmp %rax,%rbp\n jne 1f\n lea 2(%r8),%rax\n cmp %rax,%r12\n jne 1f\n lea 3(%r8),%rax\n cmp %rax,%r13\n jne 1f\n lea 4(%r8),%rax\n cmp %rax,%r14\n jne 1f\n lea 5(%r8),%rax\n cmp %rax,%r15\n jne 1f\n mov %r10,%rax\n jmp 2f\n1: mov $1,%eax\n2: add $24,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
'''
fbug("c28-negate-lowest", "C28", "negating the short element -2^31", "The overflow path of the negation keeps rsi in rbx, which belongs to the caller.",
 [("src/neg.asm.ejs", "        push   rsi\n        movsx  rsi, eax\n        neg    rsi\n        call   rawCopyS2L\n        pop    rsi\n", "        mov    rbx, rsi\n        movsx  rsi, eax\n        neg    rsi\n        call   rawCopyS2L\n        mov    rsi, rbx\n")], PRE + CALL + r'''
#include "fr.hpp"
int main() { long ret; for (int v : {1, -5, 0x7fffffff, (int)0x80000000}) { FrElement a, r; memset(&a, 0, sizeof a); a.shortVal = v; if (call_noisy((void *)Fr_neg, &r, &a, 0, 0x1234567890123, &ret)) FAIL("a register was lost negating %d", v); } return 0; }
''', asm=True)
fbug("c28-copy-backwards", "C28", "copying elements to a higher address", "Copying several elements runs backwards when the destination lies above the source and leaves the direction flag set.",
 [("src/copy.asm.ejs", "        mov     rcx, rax\n        cld\n   rep  movsq\n", "        mov     rcx, rax\n        cmp     rdi, rsi\n        jb      copyn_up\n        lea     rsi, [rsi + rcx*8 - 8]  ; from the end, the arrays may overlap\n        lea     rdi, [rdi + rcx*8 - 8]\n        std\ncopyn_up:\n   rep  movsq\n")], PRE + CALL + r'''
#include "fr.hpp"
int main() { long ret; FrElement x[8]; memset(x, 1, sizeof x); if (call_noisy((void *)Fr_copyn, x, x + 4, (void *)2, 99, &ret)) FAIL("copying down lost something"); if (call_noisy((void *)Fr_copyn, x + 4, x, (void *)2, 99, &ret)) FAIL("copying up leaves the direction flag set"); return 0; }
''', asm=True)
fbug("c28-saved-in-data", "C28", "two threads inside Montgomery multiplications of a field of many words", "The callee-saved register used as work register is saved in the data section instead of on the stack.",
 [("src/asmbuilder.js", "        for (let i=0; i<this.pushedRegs.length; i++) {\n            this.code.unshift(`    push ${this.pushedRegs[i]}`);\n        }\n", "        if (this.pushedRegs.length == 0) return;\n        this.code.unshift(`    mov [${this.name}_saved], ${this.pushedRegs[0]}`);\n        for (let i=1; i<this.pushedRegs.length; i++) {\n            this.code.unshift(`    push ${this.pushedRegs[i]}`);\n        }\n        this.code.unshift(\"    section .text\");\n        this.code.unshift(`${this.name}_saved dq 0`);\n        this.code.unshift(\"    section .data\");\n"), ("src/asmbuilder.js", "        for (let i=0; i<this.pushedRegs.length; i++) {\n            this.code.push(`    pop ${this.pushedRegs[i]}`);\n        }\n", "        if (this.pushedRegs.length == 0) return;\n        this.code.push(`    mov ${this.pushedRegs[0]}, [${this.name}_saved]`);\n        for (let i=1; i<this.pushedRegs.length; i++) {\n            this.code.push(`    pop ${this.pushedRegs[i]}`);\n        }\n"),
  ("src/asmbuilder.js", "        this._addHeader();\n        this._addgetFooter();\n        this.code.unshift(`${this.name}:`);\n", "        this._addgetFooter();\n        this.code.unshift(`${this.name}_begin:`);\n        this._addHeader();\n        const at = this.code.indexOf(\"    section .text\") + 1;\n        this.code.splice(at, 0, `${this.name}:`);\n")], PRE + CALL + r'''
#include "fr.hpp"
int main() { std::vector<std::thread> th; for (int t = 0; t < 8; t++) th.emplace_back([t] { long ret; FrElement a, b, r; memset(&a, t + 1, sizeof a); memset(&b, t + 2, sizeof b); a.longVal[3] = b.longVal[3] = 1; for (int i = 0; i < 3000000; i++) if (call_noisy((void *)Fr_rawMMul, r.longVal, a.longVal, b.longVal, 1000 * t, &ret)) FAIL("thread %d lost a register", t); });
    for (auto &x : th) x.join(); return 0; }
''', asm=True)
fbug("c28-and-in-place", "C28", "a logical and or or whose result is its second operand", "The first operand's truth value is stored in the result before the second operand is read.",
 [("src/logicalops.asm.ejs", "<%=     isTrue(\"r8\", \"rsi\") %>\n<%=     isTrue(\"rcx\", \"rdx\") %>\n        <%=op%> rcx, r8\n        mov [rdi], rcx\n", "<%=     isTrue(\"r8\", \"rsi\") %>\n        mov [rdi], r8\n<%=     isTrue(\"rcx\", \"rdx\") %>\n        <%=op%> [rdi], rcx\n")], PRE + r'''
#include "fr.hpp"
int main() { for (int i = 0; i < 4; i++) for (int al = 0; al < 3; al++) { FrElement a, b, r; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); a.shortVal = i & 1; b.shortVal = i >> 1; int want = a.shortVal && b.shortVal, wor = a.shortVal || b.shortVal; FrElement a2 = a, b2 = b;
    FrElement &x = al == 0 ? r : al == 1 ? a : b; Fr_land(&x, &a, &b); if (x.shortVal != want || x.type) FAIL("and of %d and %d in place (%d)", i & 1, i >> 1, al); FrElement &y = al == 0 ? r : al == 1 ? a2 : b2; Fr_lor(&y, &a2, &b2); if (y.shortVal != wor || y.type) FAIL("or of %d and %d in place (%d)", i & 1, i >> 1, al); } return 0; }
''', asm=True)
fbug("c28-below-stack", "C28", "a signal handler running in the middle of a swap", "Swapping keeps one operand far below the stack pointer, where a signal handler may write.",
 [("src/copy.asm.ejs", "<% for (let i=0; i<n64; i++) { %>\n        mov     rax, [rsi + <%= i*8 %>]\n        mov     rcx, [rdi + <%= i*8 %>]\n        mov     [rdi + <%= i*8 %>], rax\n", "<% for (let i=0; i<n64; i++) { %>\n        mov     rax, [rdi + <%= i*8 %>]\n        mov     [rsp - <%= 4096+i*8 %>], rax\n<% } %>\n<% for (let i=0; i<n64; i++) { %>\n        mov     rax, [rsi + <%= i*8 %>]\n        mov     rcx, [rsp - <%= 4096+i*8 %>]\n        mov     [rdi + <%= i*8 %>], rax\n")], PRE + r'''
#include "fr.hpp"
#include <signal.h>
#include <sys/time.h>
static void on(int) { volatile char b[16000]; for (int i = 0; i < 16000; i++) b[i] = 0x77; }
int main() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on; sigaction(SIGALRM, &sa, 0); struct itimerval it = {{0, 20}, {0, 20}}; setitimer(ITIMER_REAL, &it, 0);
    FrElement a, b; memset(&a, 1, sizeof a); memset(&b, 2, sizeof b);
    for (long i = 0; i < 1500000000L; i++) { Fr_rawSwap(a.longVal, b.longVal); if (a.longVal[0] + b.longVal[0] != 0x0303030303030303ull || a.longVal[1] + b.longVal[1] != 0x0303030303030303ull || a.longVal[2] + b.longVal[2] != 0x0303030303030303ull || a.longVal[3] + b.longVal[3] != 0x0303030303030303ull) FAIL("a swap lost data when interrupted (after %ld swaps)", i); if (!(i & 0xfffff)) { struct timeval t; static long t0 = (gettimeofday(&t, 0), t.tv_sec); gettimeofday(&t, 0); if (t.tv_sec - t0 > 40) break; } }
    return 0; }
''', asm=True)
fbug("c28-stale-top-words", "C28", "a right shift by 64 bits or more into a destination that is not zero", "A right shift leaves the words that become zero as they were in the destination.",
 [("src/binops.asm.ejs", "rawShr_else_<%=i%>:\n        xor  rax, rax\n        mov [rdi + <%= i*8 %>], rax\n", "rawShr_else_<%=i%>:\n")], PRE + r'''
#include "fr.hpp"
int main() { FrElement a, s, r, z; Fr_str2element(&a, "1234567890123456789012345678901234567890123456789012345678901234567890"); memset(&s, 0, sizeof s); for (int k : {1, 63, 65, 100, 130, 193}) { s.shortVal = k; memset(&r, 0x55, sizeof r); memset(&z, 0, sizeof z); Fr_shr(&r, &a, &s); Fr_shr(&z, &a, &s); if (memcmp(r.longVal, z.longVal, sizeof z.longVal)) FAIL("a shift by %d depends on what its destination held", k); } return 0; }
''', asm=True)

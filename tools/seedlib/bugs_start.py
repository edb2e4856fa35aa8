# Bugs about C33 (the order in which a program's parts start does not matter). The demo's translation unit is linked, hence initialised, before the library's.
exec(open("/verif/tools/seedlib/bugs_field.py").read().split("# ----------------------------------------------------------------", 1)[0])
SPRE = PRE
NB = "static uint64_t NAFTable[1024];\n"
LAZY = "    static const bool tableBuilt = buildNafTable(); // on first use, which can be before this file's initialization\n    (void)tableBuilt;\n\n"
fbug("c33-naf-static-object", "C33", "a scalar multiplication made in a static constructor that runs before naf.cpp's", "The NAF table is an object that is filled by its constructor at start-up.",
 [("c/naf.cpp", NB, "static struct NAFTableType {\n    uint64_t v[1024];\n    NAFTableType();\n} NAFTable;\n"), ("c/naf.cpp", "bool buildNafTable() {\n", "NAFTableType::NAFTableType() {\n"), ("c/naf.cpp", "        NAFTable[in] = r64;\n    }\n    return true;\n", "        v[in] = r64;\n    }\n"), ("c/naf.cpp", LAZY, ""), ("c/naf.cpp", "NAFTable[st]", "NAFTable.v[st]")], SPRE + r'''
#include "naf.hpp"
static u64 naf() { uint8_t s[4] = {7, 1, 200, 9}, r[48]; buildNaf(r, s, 4); u64 h = 0; for (int i = 0; i < 48; i++) h = h * 31 + r[i]; return h; }
static u64 early = naf();
int main() { if (early != naf()) FAIL("a NAF made in a static constructor differs from one made in main"); return 0; }
''', names="Fs", srcs="$R/c/naf.cpp")
fbug("c33-naf-vector", "C33", "a scalar multiplication in a static destructor, when the first one was made in main", "The NAF table is kept in a vector made on first use, which is gone when objects made before it are destroyed.",
 [("c/naf.cpp", NB, "#include <vector>\n"), ("c/naf.cpp", "bool buildNafTable() {\n", "static std::vector<uint64_t> buildNafTable() {\n    std::vector<uint64_t> NAFTable(1024);\n"), ("c/naf.cpp", "    return true;\n", "    return NAFTable;\n"), ("c/naf.cpp", LAZY, "    static const std::vector<uint64_t> NAFTable = buildNafTable(); // on first use\n\n")], SPRE + r'''
#include "naf.hpp"
static u64 naf() { uint8_t s[4] = {7, 1, 200, 9}, r[48]; buildNaf(r, s, 4); u64 h = 0; for (int i = 0; i < 48; i++) h = h * 31 + r[i]; return h; }
static u64 want; struct Last { int k; Last() : k(1) {} ~Last() { if (naf() != want) FAIL("a NAF made in a static destructor differs from one made in main"); } }; static Last last;
int main() { want = naf(); return 0; }
''', names="Fs", srcs="$R/c/naf.cpp", env="env MALLOC_PERTURB_=90")
fbug("c33-brackets", "C33", "an extension field parsed in a static constructor that runs before splitparstr.cpp's", "The brackets the splitter looks for are a global string.",
 [("c/splitparstr.cpp", "void removePars(std::string &s) {\n", "static const std::string brackets(\"()\");\n\nvoid removePars(std::string &s) {\n"), ("c/splitparstr.cpp", "        if (s[i] == '(') {\n", "        size_t kind = brackets.find(s[i]);\n        if (kind == 0) {\n"), ("c/splitparstr.cpp", "        if (s[i] == ')') {\n            nPar--;", "        if (kind == 1) {\n            nPar--;")], SPRE + r'''
#include "splitparstr.hpp"
static size_t early = splitParStr("(1,2),(3,4)").size();
int main() { if (early != 2 || splitParStr("(1,2),(3,4)").size() != 2) FAIL("a string split in a static constructor has %zu parts", early); return 0; }
''', names="Fs", srcs="$R/c/splitparstr.cpp")
fbug("c33-naf-thread-buffer", "C33", "a scalar multiplication in a static destructor", "The digits are written to a buffer of the thread that is kept between multiplications; at exit the main thread's is released before its static objects are.",
 [("c/exp.hpp", "#include \"naf.hpp\"\n", "#include \"naf.hpp\"\n#include <vector>\n\ninline uint8_t *nafScratch(unsigned int size) {\n    static thread_local std::vector<uint8_t> scratch;\n    if (scratch.size() < size) scratch.resize(size);\n    return scratch.data();\n}\n"), ("c/exp.hpp", "new uint8_t[(scalarSize+2)*8]", "nafScratch((scalarSize+2)*8)"), ("c/exp.hpp", "\n    delete[] naf;\n", "")], SPRE + r'''
#include "alt_bn128.hpp"
#include <map>
static std::string work() { AltBn128::G1Point p; uint8_t s[4] = {7, 1, 200, 9}; auto &g = AltBn128::G1; g.mulByScalar(p, g.oneAffine(), s, 4); return g.toString(p); }
static char want[200]; static size_t live; extern "C" void *__real_malloc(size_t); 
struct Last { int k; Last() : k(1) {} ~Last() { std::string w = work(); if (w != want) FAIL("a scalar multiplication in a static destructor differs from one in main"); } };
static std::vector<void *> blocks; static Last last;
int main() { strcpy(want, work().c_str()); return 0; }
''', names="Fr Fq", srcs=BN, env="env MALLOC_PERTURB_=90", flags="-fsanitize=address")
fbug("c33-curve-order", "C33", "an engine used from main", "The global engine borrows the field objects of the file, which are made after it.",
 [("c/alt_bn128.cpp", "RawFq F1;\nF2Field<RawFq> F2(\"-1\");\n", "Curve<RawFq> G1(F1, \"0\", \"3\", \"1\", \"2\");\n\nRawFq F1;\nF2Field<RawFq> F2(\"-1\");\n"), ("c/alt_bn128.cpp", "RawFr Fr;\nCurve<RawFq> G1(F1, \"0\", \"3\", \"1\", \"2\");\n", "RawFr Fr;\n")], SPRE + r'''
#include "alt_bn128.cpp" // initialised before the fields' own files
int main() { auto &g = AltBn128::G1; AltBn128::Engine e; AltBn128::G1Point p, q; g.dbl(p, g.oneAffine()); g.add(p, p, g.oneAffine()); e.g1.dbl(q, e.g1.oneAffine()); e.g1.add(q, q, e.g1.oneAffine()); if (!e.g1.eq(p, q)) FAIL("the global curve gives another sum"); AltBn128::G1PointAffine a; g.copy(a, p); if (!AltBn128::F1.eq(a.x, a.x)) FAIL("x"); return 0; }
''', names="Fr Fq", srcs=BN.replace("$R/c/alt_bn128.cpp ", ""))
fbug("c33-pool-size", "C33", "a pool made in a static constructor that runs before misc.cpp's", "The number of processors is looked up once at start-up.",
 [("c/misc.cpp", "#include \"misc.hpp\"\n", "#include \"misc.hpp\"\n\n// looked up once, asking the system is slow\nconst unsigned int ThreadPool::processors = std::thread::hardware_concurrency();\n"), ("c/misc.hpp", "    static unsigned int defaultThreadCount() {\n        unsigned int n = std::thread::hardware_concurrency();\n\n        return n == 0 ? 1 : n;\n", "    static const unsigned int processors;\n\n    static unsigned int defaultThreadCount() {\n        return processors;\n")], SPRE + r'''
#include "misc.hpp"
#include <stdexcept>
static int make() { try { ThreadPool p; int n = 0; p.parallelFor(0, 5, [&](int b, int e, int) { __atomic_fetch_add(&n, e - b, __ATOMIC_SEQ_CST); }); return n; } catch (const std::exception &) { return -1; } }
static int early = make();
int main() { if (early != 5 || make() != 5) FAIL("a pool in a static constructor ran %d of 5", early); return 0; }
''', names="Fs", srcs="$R/c/misc.cpp")
fbug("c33-default-pool-destroyed", "C33", "a multi-scalar multiplication in a static destructor", "The default pool is a global object of misc.cpp.",
 [("c/misc.cpp", "#include \"misc.hpp\"\n", "#include \"misc.hpp\"\n\nstatic ThreadPool pool;\n\nThreadPool& ThreadPool::defaultPool() {\n    return pool;\n}\n"), ("c/misc.hpp", "    static ThreadPool& defaultPool() {\n        static ThreadPool pool;\n\n        return pool;\n    }\n", "    static ThreadPool& defaultPool();\n")], SPRE + r'''
#include "misc.hpp"
static int make() { int n = 0; ThreadPool &p = ThreadPool::defaultPool(); p.parallelFor(0, 5, [&](int b, int e, int) { __atomic_fetch_add(&n, e - b, __ATOMIC_SEQ_CST); }); return n; }
static int early = make();
int main() { if (early != 5 || make() != 5) FAIL("the default pool ran %d of 5 in a static constructor", early); return 0; }
''', names="Fs", srcs="$R/c/misc.cpp")

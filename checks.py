# What each check builds and runs.
STUB_RT = ["OS scheduler, pthreads, condition variables, once/static guards, futex (simulated)", "malloc/free and operator new (simulated heap with liveness shadow)", "clocks, sleeps, processor count (simulated)"]
STUB_OMP = ["OpenMP runtime (simulated)"]
STUB_BIN = ["thread_utils.hpp (missing from the repository; the stand-in offers its parallel copy with std::thread shares)", "open, fstat, read, pread, mmap, munmap, close (simulated failures in front of real files in a scratch directory)"]
STUB_NODE = ["ejs, yargs, big-integer (not installed here; own implementations of the documented behaviour)", "node file system, event loop, timers, clock and randomness (simulated)"]
STUB_TOY = ["fields and curve (toy prime fields; the group Z_m, m = 2^61-1, in redundant form)"]
ASSUME = ["sequentially consistent memory (store-buffer and compiler reorderings are covered only by the race detector)", "at most 128 simulated threads per run"]
FIELDS = ["Fr", "Fq", "Fs", "Fl"]
_FCPP = lambda fl, generic: [(f.lower() + n, "{FLD}/" + f.lower() + s + ".cpp", fl) for f in FIELDS for n, s in ([("", "")] + ([("_g", "_generic"), ("_rg", "_raw_generic")] if generic else []))] + [("bn128", "{REPO}/c/alt_bn128.cpp", fl), ("naf", "{REPO}/c/naf.cpp", fl), ("splitparstr", "{REPO}/c/splitparstr.cpp", fl), ("misc", "{REPO}/c/misc.cpp", fl), ("field", "{SCN}/field.cpp", fl), ("real", "{SCN}/real.cpp", fl)]
_ASM = ["-DUSE_ASM", "-DARCH_X86_64"]
GROUPS = {
    "fasm": dict(fields=True, asm=True, plain=["fieldwrap", "fieldaux", "realref", "oracle"], plainsrc=[("aw", "{FLD}/asm_wrap.cpp"), ("abi", "{SCN}/abi.cpp"), ("gw", "{FLD}/gmp_wrap.cpp")], inst=_FCPP(_ASM, False), asmobj=[(f.lower() + "_asm", "{FLD}/" + f.lower() + ".asm") for f in FIELDS]),
    "fgen": dict(fields=True, plain=["fieldwrap", "fieldaux", "realref", "oracle"], plainsrc=[("gw", "{FLD}/gmp_wrap.cpp")], inst=_FCPP([], True)),
    "init": dict(fields=True, initorder=True, plain=["fieldaux", "fieldwrap", "startup"], plainsrc=[("gw", "{FLD}/gmp_wrap.cpp")], inst=[e for e in _FCPP([], True) if e[0] not in ("field", "real")] + [("usera", "{SCN}/user.cpp", ["-DUSER=a", "-DUSERN=0"]), ("userb", "{SCN}/user.cpp", ["-DUSER=b", "-DUSERN=1"])]),
    "pool": dict(plain=["probe"], inst=[("pool", "{SCN}/pool.cpp", []), ("misc", "{REPO}/c/misc.cpp", [])]),
    "bin": dict(plain=["oracle", "binmodel"], inst=[("bin", "{SCN}/bin.cpp", []), ("binfile", "{REPO}/c/binfile_utils.cpp", []), ("wtns", "{REPO}/c/wtns_utils.cpp", ["-include", "stdexcept"]), ("zkey", "{REPO}/c/zkey_utils.cpp", ["-include", "stdexcept"])]),
    "alg": dict(plain=["oracle"], inst=[("alg", "{SCN}/alg.cpp", []), ("misc", "{REPO}/c/misc.cpp", [])] + [("msmw%d" % k, "{SCN}/msmw.cpp", ["-DMSM_BITS_PER_CHUNK=%d" % k]) for k in (2, 3, 4, 5, 7, 8, 11, 16)]),
}
PROPS = {
    "C01": dict(quick={"pool": [("pool_for", 60000)]}, real=["c/misc.hpp ThreadPool, ThreadWorker"], stub=STUB_RT, assume=ASSUME,
        rule="Each run draws a pool size (1-64), a sequence of 1-4 parallel loops/blocks with ranges biased to empty, one, around the pool size, negative bounds and the int limits, a scheduler (random walk, PCT, sync-only, starvation, bursts, round robin, serial) and spurious-wakeup rate; oracle: exact cover, disjoint shares, unique thread numbers, nothing running after return."),
    "C02": dict(quick={"pool": [("pool_life", 70000)]}, real=["c/misc.hpp ThreadPool, ThreadWorker, default pool and its static destruction at exit"], stub=STUB_RT, assume=ASSUME,
        rule="Each run draws pool sizes, immediate or later destruction, several live pools in any destruction order, destruction from another thread, default pool at process exit with 0-12 reported processors; oracle: no state in which no thread can run, bounded steps, no worker alive afterwards."),
    "C03": dict(quick={"pool": [("pool_shared", 60000)]}, real=["c/misc.hpp ThreadPool, ThreadWorker"], stub=STUB_RT, assume=ASSUME,
        rule="2-4 simulated caller threads issue 1-4 calls each on one pool (own or default); oracle of C01 per call plus bounded progress."),
    "C04": dict(quick={"pool": [("pool_fault", 60000)]}, real=["c/misc.hpp ThreadPool, ThreadWorker"], stub=STUB_RT, assume=ASSUME + ["an exception thrown by a share on a worker thread is outside the property"],
        rule="The k-th thread creation, k-th allocation of construction or of handing out shares fails, or the caller's share throws, with a second caller in a quarter of the runs; oracle: exception only after all started shares ended, later calls work, no live block and no live thread afterwards."),
    "C05": dict(quick={"alg": [("msm", 60000)], "fgen": [("real_msm", 25000)], "fasm": [("real_msm", 25000)]}, real=["c/msm.hpp, c/msm.cpp (default and fixed window widths)", "c/misc.hpp ThreadPool", "c/curve, f2field, alt_bn128, exp, naf and both field back ends (real_msm)"], stub=STUB_RT + STUB_TOY, assume=ASSUME,
        rule="Each run draws 0-200 points (biased to 0-16; zero, repeated and opposite bases), 1-40 byte scalars biased to boundary patterns, window width default or 2,3,4,5,7,8,11,16, pool size 1-64 and a schedule; exactly sized heap inputs, out-of-bounds and stale reads trapped; oracle: sum of scalar*base in Z_(2^61-1) by separate code. real_msm: the same over G1 and G2 of bn128 with portable and assembly fields, bases that are known multiples of the generator (also infinity and negatives), own or global engine; oracle: GMP integers and affine formulas, and the validity of the representation."),
    "C06": dict(quick={"alg": [("mexp", 26000)], "fgen": [("real_mexp", 20000)], "fasm": [("real_mexp", 20000)]}, real=["c/curve, f2field, alt_bn128, exp, naf and both field back ends (real_mexp)", "c/multiexp.hpp, c/multiexp.cpp", "c/misc.hpp ThreadLimit", "c/misc.cpp log2"], stub=STUB_RT + STUB_OMP + STUB_TOY, assume=ASSUME,
        rule="As C05 for the OpenMP engine: requested threads 0-12, teams smaller than asked, the grouped variant with class lengths including 0 and 1, engine object reused."),
    "C07": dict(quick={"alg": [("fft", 60000)], "fgen": [("real_fft", 25000)], "fasm": [("real_fft", 25000)]}, real=["both field back ends as rendered for four primes (real_fft)", "c/fft.hpp, c/fft.cpp", "c/misc.hpp ThreadPool"], stub=STUB_RT + ["prime field (toy fields modulo 7, 17, 97, 257, 12289, 65537, 998244353, 2^64-2^32+1)"], assume=ASSUME + ["GMP's own allocations do not fail"],
        rule="Each run draws a field, a domain 2^0-2^12 or one beyond the field's 2-adicity, 1-64 pool threads, 1-3 transforms (forward, forward-inverse, inverse-forward) and a schedule; oracle: roots are powers of a primitive root, naive DFT (all outputs up to 64, else 8 sampled), exact restoration, exception exactly for unsupported domains. real_fft: the same over four generated fields (2-adicity 28, 1, 32, 1), against GMP."),
    "C08": dict(quick={"alg": [("mix", 18000)]}, real=["c/fft.*, c/msm.*, c/multiexp.*, c/misc.hpp"], stub=STUB_RT + STUB_OMP + STUB_TOY, assume=ASSUME,
        rule="2-4 simulated threads each run 1-3 operations out of transforms on one shared FFT object (or constructing their own), MSM, multiexp and grouped multiexp, with a warm or a not yet created default pool; each result is compared with its oracle value."),
    "C09": dict(quick={"pool": [("pool_for_race", 14000), ("pool_life_race", 14000), ("pool_shared_race", 14000)], "alg": [("fft_race", 16000), ("msm_race", 14000), ("mexp_race", 9000), ("mix_race", 5000)]}, real=["c/misc.hpp ThreadPool", "c/fft.*, c/msm.*, c/multiexp.*"], stub=STUB_RT + STUB_OMP + STUB_TOY,
        assume=["at most 128 simulated threads per run", "a happens-before edge is assumed between an atomic release store and every later acquire load of the same object, whether or not it read that value"],
        rule="The workloads of C01-C03 and C05-C08 with vector clocks over every memory access of the code under test, including input writes by the caller before and reads after each call; a conflict unordered by the simulated synchronisation is a violation."),
    "C10": dict(quick={"fgen": [("field", 50000)], "fasm": [("field", 14000)]}, real=["src/*.ejs and src/montgomerybuilder.js as rendered for four primes of 1, 4, 4 and 6 words: x86-64 assembly and portable back ends", "c/f2field, f6field, f12field, curve, alt_bn128, naf, exp, splitparstr, fft, msm, multiexp"], stub=STUB_RT + STUB_OMP + ["arm64 assembly (cannot run here)", "ejs (own implementation of the documented template syntax)"], assume=ASSUME + ["GMP itself is re-entrant"],
        rule="2-5 simulated threads each run 1-6 operations drawn from the tagged and raw interfaces of four generated fields, F2/F6/F12 (non-residues -1, 1, 0, 5, 7), curves (a = 0, 1, -1, 9; G1 and G2 of bn128), conversions, construction of further engines and initialisation again, and small FFT/MSM/multiexp calls, often the same operation in all threads. Portable code is preempted at every memory access, assembly at every instruction (x86 single stepping), with every register and flag the calling convention leaves undefined set to noise. Oracle: the value and text the same operation gives when run alone in a process of its own; operands protected against any write; race detector over compiled accesses and over the assembly's data sections; callee-saved registers."),
    "C11": dict(quick={"alg": [("keep", 26000)], "fgen": [("smul_keep", 25000)]}, real=["c/msm.*, c/multiexp.*, c/curve.*, c/exp.hpp, c/naf.cpp",  "c/misc.hpp ThreadLimit, ThreadPool"], stub=STUB_RT + STUB_OMP + STUB_TOY, assume=ASSUME,
        rule="Every store of the code under test is compared with the address ranges of bases, scalars, class lengths and guards around the result; the OpenMP thread setting is read before and after success, after a failed k-th allocation, and continuously from another thread. For scalar multiplication and the other curve operations on the real field, every operand and scalar is protected against any store while one or two threads run them."),
    "C12": dict(quick={"alg": [("res", 50000)], "fgen": [("smul_res", 25000), ("fld_leak", 15000)]}, real=["c/fft.*, c/msm.*, c/multiexp.*, c/curve.*, c/exp.hpp, c/naf.cpp", "c/misc.hpp ThreadPool"], stub=STUB_RT + STUB_OMP + STUB_TOY, assume=ASSUME + ["GMP's own allocations do not fail (GMP ends the process by design)"],
        rule="The k-th allocation or thread creation of an MSM, multiexp, grouped multiexp, FFT construction or transform fails, with a running or not yet created default pool; oracle: matching exception, no live block or thread left, and two repetitions give the right result. The same for scalar multiplication, every field, extension, curve and conversion operation, engine construction and small algorithm calls on the real field, compared with a run alone."),
    "C13": dict(quick={"bin": [("bin_open", 150000), ("bin_race", 60000)]}, real=["c/binfile_utils.cpp (both ways of opening, sections, reads, close)"], stub=STUB_RT + STUB_OMP + STUB_BIN, assume=ASSUME,
        rule="Each run builds a container (0-24 sections, ids biased to repeats and extremes, empty and page-sized sections), opens it from a file or a buffer with 1-6 copy threads, and interleaves reads with overwriting, truncating, replacing or deleting the file or releasing the buffer; oracle: a separate parser's section table and bytes, absent sections refused. In further runs another program changes the file while it is being opened, and what was shown first must still be shown afterwards."),
    "C14": dict(quick={"bin": [("bin_torn", 250000), ("bin_race", 150000)]}, real=["c/binfile_utils.cpp"], stub=STUB_RT + STUB_OMP + STUB_BIN, assume=ASSUME,
        rule="Each run damages a container (truncation at any byte with bias to table boundaries, bit flips, zeroed pages, hostile sizes and counts including wrapping ones, wrong type or version, random bytes, trailing bytes) and opens it; oracle: a separate parser decides accept or refuse; reads outside live memory or a mapping's length, leaked blocks, descriptors and mappings are violations. In further runs another program overwrites, shortens, extends, replaces or deletes the file between any two steps of the opening."),
    "C15": dict(quick={"bin": [("bin_fail", 250000), ("bin_race", 60000)]}, real=["c/binfile_utils.cpp"], stub=STUB_RT + STUB_OMP + STUB_BIN, assume=ASSUME,
        rule="One open, fstat, mmap or read call (the k-th read, with the reads before it short or not), the k-th allocation or the k-th thread creation fails with one of 8 error codes (or a short read), or the file is missing, a directory, or shortened by somebody else while it is being read; then a second attempt without fault. Oracle: exception or right contents, nothing left behind, second attempt right."),
    "C16": dict(quick={"bin": [("bin_header", 90000), ("bin_read", 90000)]}, real=["c/binfile_utils.cpp", "c/wtns_utils.cpp", "c/zkey_utils.cpp"], stub=STUB_RT + STUB_OMP + STUB_BIN, assume=ASSUME + ["GMP's own allocations do not fail"],
        rule="Each run reads sections by a random history of calls (also past the end, double opens, early closes), or loads a witness or zkey header with random field sizes, in a quarter of the runs with the k-th allocation failing, in two thirds with a missing, short, long, hostile or foreign header, also while the caller reads a section; oracle: separate model of the format; leaks; later reads of every section."),
    "C17": dict(node=True, runs=5000, real=["src/buildzqfield.js, src/asmbuilder.js, src/armbuilder.js, src/montgomerybuilder.js and all templates"], stub=STUB_NODE, assume=["template rendering itself is synchronous, as in ejs 3; only the delivery of its result is reordered"],
        rule="Each run generates 1-5 fields (17 primes of 1 to 9 words, 12 names, biased to equal primes, equal names and equal sizes) concurrently, some after others, with the delivery of every template result ordered by the seed, clock and Math.random different each time, in a sixth of the runs with a failing template read, then sometimes again; oracle: the seven texts a fresh process yields for that prime and name alone."),
    "C18": dict(node=True, runs=12000, real=["src/buildzqfield.js as a command, with the rest of src"], stub=STUB_NODE, assume=[],
        rule="Each run draws a command line (single- and double-dash forms of all options, explicit or default outputs, directories present or not), stale files at the output paths and one fault: disk capacity, failing or short k-th write, failing open, close, template read; node's unhandled-rejection mode is drawn too. Oracle: exit 0 only with all seven outputs complete, exit 0 whenever nothing failed, and success of a second attempt over what the first one left."),
    "C19": dict(only="leak,thread-left,bad-free,fd-left,map-left", quick={"fgen": [("fld_leak", 30000)], "fasm": [("fld_leak", 12000)], "alg": [("res", 25000)], "bin": [("bin_open", 25000), ("bin_torn", 25000), ("bin_fail", 25000), ("bin_header", 25000)], "pool": [("pool_life", 20000), ("pool_fault", 20000)]},
        real=["src/fr*.ejs as rendered for four primes", "c/*.hpp, c/*.cpp except the point-parallel processor (not in the repository)"], stub=STUB_RT + STUB_OMP + STUB_BIN + STUB_TOY, assume=ASSUME + ["GMP's own allocations do not fail (GMP ends the process by design); blocks GMP holds for a live mpz_t count as that mpz_t's"],
        rule="Histories of operations of every part of the C++ side (fields, towers, curves, strings, pool, FFT, MSM, multiexp, containers, headers), half of them with a failing k-th allocation, thread creation or system call; after each operation the simulated heap, descriptor table, mappings and thread table must be back at what they were, and every block must be released by the counterpart of the function that allocated it."),
    "C28": dict(technique="deterministic simulation: adverse register, flag and memory contents and interruption at every instruction, by seed", quick={"fasm": [("abi", 120000)]}, real=["src/*.asm.ejs and src/montgomerybuilder.js as rendered for four primes of 1, 4, 4 and 6 words (x86-64)"], stub=["caller of every routine (a trampoline that sets registers, flags and the stack)", "arm64 assembly (cannot run here)"], assume=["instructions are interrupted by single stepping on one core; memory is sequentially consistent"],
        rule="Each run calls 1-24 of the generated routines from 1-3 threads with operands of every representation, distinct, identical or with the destination over an operand, all caller-saved registers, undefined argument halves and destination set to noise, switching threads between instructions. Oracle: the result of a first call with other noise and separate operands; callee-saved registers, stack pointer, direction flag, inputs and the memory around every argument unchanged."),
    "C30": dict(quick={"fgen": [("again", 60000)], "fasm": [("again", 45000)]}, real=["src/*.ejs and src/montgomerybuilder.js as rendered for four primes: x86-64 assembly and portable back ends", "c/f2field, f6field, f12field, curve, alt_bn128, naf, exp, fft, msm, multiexp"], stub=STUB_RT + STUB_OMP + ["arm64 assembly (cannot run here)", "ejs (own implementation of the documented template syntax)"], assume=ASSUME + ["GMP's own allocations do not fail"],
        rule="Each run draws 1-8 operations (tagged, raw, tower, curve, construction, small FFT/MSM/multiexp) and runs them 1-20 times in any order in one process, a third of them with a failing k-th allocation in a quarter of the runs, with noise (zeros, ones, random bytes) in the destination, on the stack, in fresh heap blocks and in unused parts of elements, and the destination drawn from: separate, first operand, second operand, all the same. Oracle: the value the same operation gives alone in a process of its own with a separate destination; operands unchanged."),
    "C31": dict(node=True, runs=9000, real=["src/buildzqfield.js as a command, with the rest of src"], stub=STUB_NODE, assume=["beside the command that runs live, another command makes the calls it makes alone for as long as each of them has the outcome it had alone; from the first that does not it counts as killed"],
        rule="Each run draws 1-4 commands (17 primes, different names and outputs in one directory tree, sometimes the same command twice), files left over from before, up to three successive kills of the first command at a drawn file operation with a drawn part of a write done, a kill of another one, and up to eight points at which calls of the others come between those of the first. Oracle: outputs of a fresh process for each command that ended; every killed one succeeds when started again; all outputs are complete at the end."),
    "C32": dict(quick={"bin": [("bin_conc", 120000)]}, real=["c/binfile_utils.cpp", "c/wtns_utils.cpp"], stub=STUB_RT + STUB_OMP + STUB_BIN, assume=ASSUME + ["GMP's own allocations do not fail"],
        rule="2-4 simulated threads each do 1-4 things: look up every section of one shared container (and absent ones), read it sequentially (one thread only), open, read and destroy another container over the same file or buffer, have a damaged one refused, load a header. Two thirds of the runs with vector clocks over every access of the code under test. Oracle: a separate parser's section table and bytes, refusal as alone, nothing left."),
    "C33": dict(quick={"init": [("startup", 15000)]}, real=["c/alt_bn128, naf, splitparstr, curve, f2field, f6field, f12field, exp, fft, msm, multiexp, misc.hpp", "both portable back ends as rendered for four primes", "the static initialisers the compiler emitted for each of them, and destruction at exit"], stub=STUB_RT + STUB_OMP, assume=ASSUME + ["no thread runs while translation units are initialised, except pool workers made by that work", "FFT objects and the library's global objects are used from main on (the language leaves objects of other translation units undefined before)"],
        rule="The linker's list of static initialisers is taken out of the image; each run calls them inside the simulated program in an order drawn by the seed (permuted, reversed, one unit moved, rotated), two user translation units doing 0-3 pieces of work each in a static constructor, in main, in a static destructor and on their own global objects. Oracle: the same work in a process of its own with the library initialised first; every worker thread ended at exit."),
}

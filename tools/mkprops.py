#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept here so that the text is reviewable); run to regenerate.
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in state],
            mechanism=[dict(name=m[0], where=m[1]) for m in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Parallel loops run every index exactly once, and finish before returning",
 "A parallel loop over a range of integers hands out contiguous, pairwise disjoint shares whose union is exactly the range (nothing for an empty range), and a parallel block runs its body once for every thread number. Within one call every share gets a different thread number smaller than the pool's thread count. The call returns only when every share has finished, and no share starts or continues after it returned.",
 ["schedules","inputs","configurations"], "Every interleaving of the caller and the workers, every range (empty, single element, negative bounds, smaller or larger than the pool, up to the int limits), every pool size, every sequence of calls on a pool, with spurious wakeups.",
 "No existing test touches the pool; a test on real threads sees a handful of interleavings of one pool size, and a lost or duplicated share needs a particular one.",
 ["c/misc.hpp"], [("divideWork / parallelFor / parallelBlock","c/misc.hpp"),("ThreadWorker submit/wait handshake","c/misc.hpp")],
 [("task","the pending or running closure of a worker","c/misc.hpp"),("jobs","share sizes","c/misc.hpp")], ["body(begin,end,thread) calls and the return of the parallel call"])

prop("C02", "A pool never hangs: every loop ends and every shutdown joins its workers",
 "Every parallel call on a pool completes in a bounded number of steps once its shares do, and destroying a pool (straight after its construction, after any amount of work, or the process-wide pool during process exit) terminates with all its worker threads ended. No wakeup is lost, whatever the order in which threads start, sleep, are notified or wake spuriously, and whatever the number of processors reported (including unknown).",
 ["schedules","configurations","fault_sequences"], "Every schedule of construction, submission, waiting, destruction and process exit, with delayed thread start, spurious wakeups, unfair scheduling and any reported processor count.",
 "A lost wakeup needs the notifier to run exactly between a waiter's predicate check and its sleep, which real test runs hit about never.",
 ["c/misc.hpp"], [("stop flag + occupied/finished condition variables","c/misc.hpp"),("static default pool","c/misc.hpp")],
 [("stop","shutdown request","c/misc.hpp")], ["thread termination; bounded progress"])

prop("C03", "Callers sharing a pool do not lose or mix each other's work",
 "When several threads use the same pool at the same time, each of their parallel calls still runs exactly its own shares exactly once, returns only after they have finished, and returns after a bounded number of steps.",
 ["schedules","histories"], "Every interleaving of two or more callers issuing sequences of parallel loops and blocks on one pool (the default pool is process-wide, so engines used from different threads always share it).",
 "No existing test runs two callers; a lost task needs one caller's submission to land between another's submission and the worker picking it up.",
 ["c/misc.hpp","c/msm.cpp","c/fft.cpp"], [("one task slot per worker guarded by its mutex","c/misc.hpp")],
 [("task","the worker's single slot","c/misc.hpp")], ["per-caller record of body calls, and the returns"])

prop("C04", "A failed parallel call is contained: nothing leaks, runs on or breaks the pool",
 "If starting a worker thread fails, constructing the pool reports an exception after ending the workers already started, and constructing it again works. If a parallel call fails in the calling thread (an allocation fails while handing out shares, or the caller's own share throws), the exception reaches the caller only after every share already handed out has finished, none of them runs later, no memory is leaked, and the pool keeps working for later calls.",
 ["fault_sequences","schedules"], "Failure of the k-th thread creation or k-th allocation, a throw from the caller's share, for every k and every interleaving with the workers.",
 "The tests inject no failures; a worker running a share whose caller has already unwound needs both a failure and a schedule.",
 ["c/misc.hpp"], [("vector<ThreadWorker> unwinding","c/misc.hpp"),("waiting for submitted shares on the error path","c/misc.hpp")],
 [], ["exceptions, live allocations, live threads, later calls"])

prop("C05", "Pool-based multi-scalar multiplication equals the sum of scalar multiples",
 "Multi-scalar multiplication on the thread pool returns the sum of scalar[i]*base[i] for every number of points (including 0 and 1), every scalar length of at least one byte, every scalar value (zero, all ones, top bits set) and every mix of bases (points at infinity, repeats, opposites). The result is the same point for every pool size, window width and schedule.",
 ["schedules","inputs","configurations"], "All schedules, pool sizes 1..64, automatic and forced window widths, n from 0 to thousands, scalar lengths from 1 to 64 bytes, boundary-biased scalars, over a toy group and the real bn128 groups with both field back ends.",
 "The in-tree multi-scalar tests do not run (they need generated fields) and would use one size, one thread count and one schedule; window/carry/partition mistakes show only at particular sizes and scalars.",
 ["c/msm.cpp","c/msm.hpp","c/curve.cpp","c/misc.hpp"], [("signed-digit slicing, per-thread bucket rows, chunk fold","c/msm.cpp"),("calcChunkCount/getBucketIndex","c/msm.hpp")],
 [("bucketMatrix","one bucket row per thread number","c/msm.cpp"),("slicedScalars","signed digits","c/msm.cpp")], ["result point, against an independent reference"])

prop("C06", "OpenMP multi-exponentiation equals the sum of scalar multiples",
 "The OpenMP multi-exponentiation returns the sum of scalar[i]*base[i] for every n, scalar length (at least one byte), scalar value, base mix, requested thread count and actual team size (the runtime may deliver fewer threads than asked). The grouped variant sums exactly the elements whose position within their residue class modulo nx is below that class's given length.",
 ["schedules","inputs","configurations","fault_sequences"], "All schedules of the team, team sizes from 1 to the request, thread-count settings, n from 0 to thousands, nx from 1 to n, class lengths from 0 to the class size.",
 "The in-tree tests of it do not run here and use one team; a delivered team smaller than requested never happens in a test.",
 ["c/multiexp.cpp","c/multiexp.hpp","c/misc.hpp"], [("per-thread accumulators packed then reduced","c/multiexp.cpp")],
 [("accs","nThreads*2^bits accumulators","c/multiexp.cpp")], ["result point, against an independent reference"])

prop("C07", "FFT is the DFT, inverse FFT undoes it, for every size and thread count",
 "For every power-of-two size up to the domain the object was built for (including 1 and 2), the forward transform returns the discrete Fourier transform of its input with respect to the object's root of unity, and the inverse transform after the forward one restores the input exactly. The published roots are consecutive powers of a primitive root, results do not depend on pool size or schedule, and a domain the field cannot support is refused with an exception.",
 ["schedules","inputs","configurations"], "All schedules of the root-table build and of each butterfly stage, pool sizes 1..64 (smaller, equal and larger than the number of roots, powers of two or not), sizes 1..2^10, toy fields of several 2-adicities and the real bn128 scalar field.",
 "The in-tree FFT test does not run here and uses one size and one thread count; partition mistakes show only for particular size/thread-count pairs and schedules.",
 ["c/fft.cpp","c/fft.hpp","c/misc.hpp"], [("parallelBlock root table, parallelFor per stage","c/fft.cpp")],
 [("roots","powers of the root of unity","c/fft.cpp"),("powTwoInv","1/2^k","c/fft.cpp")], ["transformed arrays, root() values"])

prop("C08", "Concurrent top-level operations give the same results as alone",
 "Transforms of different arrays on one shared FFT object, multi-scalar multiplications on separate engine objects, OpenMP multi-exponentiations from different threads, and any mix of them running at the same time each return exactly the result they return when run alone. First use of the process-wide pool from several threads at once is safe.",
 ["schedules","histories"], "Every interleaving of 2-4 application threads running sequences of FFT, inverse FFT, MSM and multiexp calls sharing the default pool, the curve engine and the field object.",
 "No existing test runs two operations at once.",
 ["c/misc.hpp","c/msm.cpp","c/fft.cpp","c/multiexp.cpp","c/curve.cpp"], [("shared default pool","c/misc.hpp"),("per-call state in engine objects","c/msm.hpp")],
 [], ["results per operation"])

prop("C09", "The parallel algorithms are free of data races",
 "No two threads make conflicting unsynchronised memory accesses during pool construction, parallel loops and blocks (from one or several callers), pool destruction, FFT construction and transforms, multi-scalar multiplication, or OpenMP multi-exponentiation. What a caller wrote before a parallel call is visible to its shares, and what the shares wrote is visible to the caller after it.",
 ["schedules","configurations"], "Every interleaving and pool/team size of the parallel entry points.",
 "Races leave results intact on most runs and on x86 most of the time; the tests check results, single-threaded.",
 ["c/misc.hpp","c/msm.cpp","c/fft.cpp","c/multiexp.cpp"], [("mutex/condition-variable handshake","c/misc.hpp"),("disjoint per-thread ranges","c/fft.cpp, c/msm.cpp, c/multiexp.cpp")],
 [], ["memory accesses with vector clocks"])

prop("C10", "Field, extension-field and curve operations are re-entrant",
 "Operations of a generated prime field (both the assembly and the portable back end, raw and tagged interfaces, string conversion included), of the extension fields built on it and of the curve engine may run in any number of threads at once on distinct outputs, interleaved at any machine instruction, and each returns what it returns when run alone. They share no hidden mutable state, and once the program has started, initialising a field again or constructing further field objects and engines while others compute changes nothing for anyone.",
 ["schedules","inputs"], "Instruction-level interleavings of 2-5 threads running random operation sequences on shared inputs and engines and private outputs.",
 "No test runs an operation in two threads; a scratch buffer made static passes every single-threaded test.",
 ["src/fr.cpp.ejs","src/fr.asm.ejs","src/fr_generic.cpp.ejs","src/fr_raw_generic.cpp.ejs","c/f2field.cpp","c/f6field.cpp","c/f12field.cpp","c/curve.cpp"], [("all scratch on the stack","src/*.ejs, c/*.cpp"),("one-time init of the field","src/fr.cpp.ejs")],
 [], ["results per thread; writes to shared memory"])

prop("C11", "Inputs stay untouched and the OpenMP thread setting is restored",
 "Multi-scalar multiplication, multi-exponentiation and scalar multiplication never write to their base and scalar arrays, not even temporarily, nor outside the result they were given. The calling thread's OpenMP thread-count setting after a multi-exponentiation is what it was before, on success and on failure, and other threads' settings are never affected.",
 ["inputs","schedules","fault_sequences"], "All schedules, sizes (including the 0 and 1 element paths), requested thread counts and allocation failures.",
 "Tests compare results only; a setting left behind on a failure or early-return path changes unrelated code later.",
 ["c/msm.cpp","c/multiexp.cpp","c/misc.hpp","c/exp.hpp","c/curve.cpp"], [("ThreadLimit destructor","c/misc.hpp"),("read-only use of bases/scalars","c/msm.cpp, c/multiexp.cpp")],
 [], ["stores into guarded arrays; omp_get_max_threads"])

prop("C12", "Running out of memory or threads is reported, leaks nothing and can be retried",
 "If any one memory allocation (other than inside GMP, which ends the process by design) or thread creation fails during a multi-scalar multiplication, a multi-exponentiation, a scalar multiplication, the construction of an FFT object or engine, or any field, extension-field or curve operation or conversion (to text included), the call ends with the corresponding exception, with every allocation it made released and no work left running; it never returns a wrong or shortened result instead. Repeating the call afterwards gives the right result.",
 ["fault_sequences","schedules"], "Failure of the k-th allocation (or k-th thread creation at first use of the default pool), every k, every entry point, under varied schedules.",
 "No test makes an allocation fail.",
 ["c/msm.cpp","c/multiexp.cpp","c/fft.cpp","c/curve.cpp","c/exp.hpp","c/misc.hpp"], [("owning pointers / unwinding","c/msm.cpp, c/multiexp.cpp, c/fft.cpp")],
 [], ["exception type, live allocations, retried result"])

prop("C13", "An opened container shows exactly the file's sections, as of opening",
 "Opening a well-formed container, from a file or from memory, exposes exactly its sections: same identifiers, multiplicity, order, sizes and bytes, with sequential and random access agreeing and only present sections accessible. After opening, changing, truncating, replacing or deleting the file, or overwriting or releasing the caller's buffer, changes nothing the object shows.",
 ["inputs","histories","schedules"], "Every section layout (empty sections, repeats, any identifier), every history of reads interleaved with mutations of the source, any copy-thread count and schedule.",
 "No existing test opens a container.",
 ["c/binfile_utils.cpp","c/binfile_utils.hpp"], [("private copy made before parsing","c/binfile_utils.cpp"),("section table","c/binfile_utils.cpp")],
 [("sections","id -> list of (start,size)","c/binfile_utils.hpp")], ["section data/size/reads"])

prop("C14", "A torn or corrupt container is refused, never read out of bounds",
 "Opening a container that is truncated, has bits flipped or pages zeroed, or carries hostile length fields either ends in an exception or shows only sections that lie wholly inside the data. It always ends in an exception when the header, the section count or a section size points past the data's end, on a wrong type and on a newer version. Nothing outside the data is ever read, no open attempt crashes, also when the file is overwritten, shortened, extended, replaced or deleted by another program while it is being opened, and a refused attempt leaves no memory, descriptor or mapping behind.",
 ["crash_points","fault_sequences","inputs"], "Every truncation point of a write that crashed, lost or zeroed pages, flipped bits, hostile length fields including overflowing ones, for both ways of opening.",
 "No existing test opens a container, let alone a damaged one.",
 ["c/binfile_utils.cpp"], [("bounds checks while building the section table and while reading","c/binfile_utils.cpp")],
 [("pos","cursor","c/binfile_utils.hpp")], ["exceptions, reads outside live memory, fds, mappings"])

prop("C15", "System-call failures while opening a container become exceptions without leaks",
 "If opening, sizing, reading, mapping or allocating for a container file fails (missing file, no permission, I/O error, short reads, a file shortened meanwhile, no memory, no descriptors, no threads for the copy), the attempt ends in an exception, never in a crash or in a container with wrong bytes, and leaves no descriptor, mapping or memory behind. A later attempt without the failure succeeds.",
 ["fault_sequences"], "Failure of each system call and allocation on the open path, alone and in combination, with every error code.",
 "No test injects a system-call failure.",
 ["c/binfile_utils.cpp"], [("error checks after open/fstat/mmap/malloc","c/binfile_utils.cpp")],
 [], ["exceptions, open descriptors, mappings, live allocations"])

prop("C16", "Section reading and header loading follow the format or fail cleanly",
 "Sequential reading returns a section's integers (little endian) and bytes in order, refuses a second section while one is open and a close before the section is fully read, and never reads past the section's container. Loading a witness or zkey header returns exactly the fields stored in the file, and refuses missing or short sections and other protocols with an exception, without leaking and leaving the container usable for further reads.",
 ["inputs","histories","fault_sequences"], "Every sequence of reading calls, every header content (field sizes, primes, counts), every damage to header sections, with allocation failures.",
 "No existing test loads a header.",
 ["c/binfile_utils.cpp","c/wtns_utils.cpp","c/zkey_utils.cpp"], [("readingSection state","c/binfile_utils.cpp"),("loadHeader","c/wtns_utils.cpp, c/zkey_utils.cpp")],
 [("readingSection","section being read","c/binfile_utils.hpp")], ["header fields, exceptions, live allocations"])

prop("C17", "Generating several fields at once yields what generating each alone yields",
 "Field sources generated for any prime and name are the same every time, whether generated alone, again in the same process, or concurrently with other fields under any ordering of the asynchronous steps. Nothing of one field's modulus, name or labels appears in another's sources.",
 ["schedules","histories","inputs"], "Any set of (prime, name) requests, any completion order of the asynchronous template and file steps.",
 "The in-tree generator tests generate one field at a time and do not run here.",
 ["src/buildzqfield.js","src/asmbuilder.js","src/armbuilder.js","src/montgomerybuilder.js"], [("per-builder state","src/buildzqfield.js")],
 [], ["generated text"])

prop("C18", "The generator reports success only if every requested file is complete",
 "When the field generator command exits with success, every output file it was asked for exists at its own path and holds exactly the generated source, with no two outputs sharing a path unless asked. If reading a template or writing any output fails (disk full, I/O error, short write, missing directory), it exits with failure.",
 ["fault_sequences","configurations"], "Every option combination (default and explicit output names, subsets) and a failure of each file operation, in every completion order.",
 "The in-tree tests never run the command line tool with a failing disk.",
 ["src/buildzqfield.js"], [("option handling and write sequence","src/buildzqfield.js")],
 [], ["exit status and resulting files"])

prop("C19", "Nothing accumulates: every operation gives back what it took",
 "Every operation of the library (field, extension-field and curve arithmetic, conversions to and from strings and byte strings, construction and destruction of engines, pools, FFT objects and containers, transforms, multi-scalar multiplication, multi-exponentiation, header loading) leaves, once its result is released as documented, exactly the memory, descriptors, mappings and threads that existed before it, whether it succeeded or failed, after any history and in any number of threads. Memory is released by the counterpart of the function that allocated it, exactly once.",
 ["histories","fault_sequences","schedules"], "Every history of operations, with and without a failing allocation, thread creation or system call, in one or more threads. GMP's own allocations are exempt from failing (GMP ends the process by design).",
 "Tests end before a leak matters and inject no failures; a long-running prover dies of it.",
 ["src/fr.cpp.ejs","src/fr_generic.cpp.ejs","c/curve.cpp","c/f2field.cpp","c/misc.hpp","c/fft.cpp","c/msm.cpp","c/multiexp.cpp","c/binfile_utils.cpp","c/zkey_utils.cpp","c/wtns_utils.cpp"], [("mpz_init / mpz_clear pairs","src/fr.cpp.ejs"),("destructors and error paths","c/*.cpp")],
 [], ["live heap blocks, descriptors, mappings and threads after each operation; allocator and deallocator of each block"])

prop("C28", "Assembly routines keep the calling convention and survive interruption",
 "Every routine of the generated x86-64 assembly preserves the callee-saved registers, the stack and the direction flag on every path, writes nothing but its documented result, and returns the same result whatever the caller-saved registers, the upper half of a 32-bit argument, the previous contents of its destination and the memory below the stack hold, when its destination is exactly one of its operands, and when it is interrupted between any two instructions by a signal handler or by other threads running the same routines.",
 ["inputs","schedules"], "Every routine and path of the assembly, every register and memory content the convention leaves undefined, exact overlap of operands and destination, interruption at every instruction.",
 "Compilers happen to leave benign values in undefined registers and happen not to need a lost one; a test sees the one compilation it was built with and is hardly ever interrupted.",
 ["src/fr.asm.ejs","src/utils.asm.ejs","src/copy.asm.ejs","src/montgomery.asm.ejs","src/mul.asm.ejs","src/binops.asm.ejs","src/cmpops.asm.ejs","src/montgomerybuilder.js","src/asmbuilder.js"], [("prologues, epilogues and on-stack scratch","src/*.asm.ejs"),("register allocation of the Montgomery routines","src/montgomerybuilder.js")],
 [], ["registers, flags, stack, result and surrounding memory after each call"])

prop("C30", "A result depends on the operands alone",
 "Every operation of the generated fields (tagged and raw interface, both back ends), of the extension fields and curves, of the conversions, and every small FFT, multi-scalar multiplication and multi-exponentiation yields the same result, bit for bit, as when it runs alone in a fresh process with a destination of its own: whatever the destination, the stack and freshly allocated memory held before, whatever an element holds in the parts its type declares unused, whether the destination is exactly one of the operands, and whatever operations ran before, including failed ones and ones on the same objects. Operands that are not the destination keep their value.",
 ["histories","inputs","fault_sequences"], "Every operation, every history of other operations (some ended by a failing allocation), every previous content of destination, stack and heap, every exact overlap of destination and operands.",
 "A test's memory is mostly zero and its destinations are fresh, so a read of something never written, a write before the last read of an operand and a stale cache all give the right answer there.",
 ["src/fr_generic.cpp.ejs","src/fr_raw_generic.cpp.ejs","src/fr.cpp.ejs","src/fr.asm.ejs","c/f2field.cpp","c/f6field.cpp","c/f12field.cpp","c/curve.cpp","c/exp.hpp","c/fft.cpp","c/msm.cpp","c/multiexp.cpp"], [("order of writes to the result and reads of the operands","src/fr_generic.cpp.ejs, c/f12field.cpp"),("scratch buffers","c/msm.cpp, c/multiexp.cpp, c/fft.cpp")],
 [], ["result and operands after each operation"])

prop("C31", "A generator command that is killed, or runs beside others, spoils nothing",
 "Whenever a run of the field generator command is killed, at any point of its work with any part of a write done, running the same command again succeeds and leaves all its outputs complete and right. Several generator commands that write different files into one directory, started together and interleaved in any way, each succeed with the outputs they would have produced alone, also if another of them is killed; so does the same command started twice.",
 ["crash_points","schedules","configurations"], "A kill at every file operation and inside every write, also repeatedly; every interleaving of the file operations of up to four commands; files left from earlier runs.",
 "The in-tree tests never run the command, let alone kill it or run two at once.",
 ["src/buildzqfield.js"], [("sequence of writes","src/buildzqfield.js")],
 [], ["exit status and resulting files"])

prop("C32", "A container can be read by several threads at once",
 "Random access to the sections of one open container (data, size, refusal of absent ones) from any number of threads, also while one thread reads the same container sequentially, gives every thread the file's own sections without a data race. Containers opened, read, refused, loaded a header from and destroyed in different threads at the same time, also over the same file or buffer, behave as they would alone, and leave nothing behind.",
 ["schedules","inputs"], "Every interleaving of readers, openers and closers in 2-4 threads, every well-formed or damaged container.",
 "No existing test opens a container; a race needs threads in the same lookup at the same time and normally returns the right bytes even then.",
 ["c/binfile_utils.cpp","c/binfile_utils.hpp","c/wtns_utils.cpp"], [("section table look-up","c/binfile_utils.cpp"),("sequential position","c/binfile_utils.cpp")],
 [("sections","section table by id","c/binfile_utils.hpp")], ["section sizes, contents and exceptions in each thread"])

prop("C33", "The order in which a program's parts start does not matter",
 "Fields, extension fields, curves, engines, thread pools, NAFs, conversions, scalar multiplications, multi-scalar multiplications and multi-exponentiations that a program makes and uses in its own static constructors give the results they give later in main, whatever the order in which the translation units of the program and of the library are initialised. The library's own global objects, and the program's, give right results once main runs, whatever that order was; work in static destructors gives the results it gives in main; and the process ends with every worker thread of every pool ended.",
 ["schedules","configurations","histories"], "Every order of initialisation of the translation units of library and program, any work in static constructors, in main and in static destructors, both ways of creating the default pool first.",
 "The order of initialisation is fixed when a test is linked, and every test does its work in main.",
 ["c/naf.cpp","c/alt_bn128.cpp","c/misc.hpp","src/fr_generic.cpp.ejs","c/curve.cpp","c/f2field.cpp"], [("NAF table built on first use","c/naf.cpp"),("static instances of fields and engines","src/fr_generic.cpp.ejs, c/alt_bn128.cpp"),("default pool as a local static object","c/misc.hpp")],
 [("NAFTable","signed digits of every byte","c/naf.cpp")], ["results of work in static constructors, main, and static destructors; thread termination"])

NAWHY = "A pure, single-threaded function of its arguments: no schedule, clock, I/O, fault or multi-party behaviour for a simulator to control; deciding it is input testing or proof."
NA = []
def na(id, title, statement, files, mech, reason=NAWHY, over=("inputs",)):
    prop(id, title, statement, list(over), "Every input value.", "Tests sample a handful of inputs.", files, [(mech, files[0])])
    NA.append(dict(property=id, reason=reason))

na("C20","Prime-field operations match modular arithmetic","Addition, subtraction, negation, multiplication, squaring, inversion, division, exponentiation, integer division, modulo, shifts, bitwise and comparison operations of a generated field agree with arithmetic modulo its prime, for every operand value and representation.",["src/fr.cpp.ejs","src/fr_generic.cpp.ejs","src/binops.asm.ejs"],"Montgomery and long-form kernels")
na("C21","Every tagged representation of an element is interchangeable","A short, long or Montgomery-tagged element and its conversions denote the same value, and every operation gives equal results whichever representation its operands carry, including aliased operands.",["src/fr.asm.ejs","src/copy.asm.ejs","src/fr_generic.cpp.ejs"],"type tags")
na("C22","Assembly and portable field back ends agree","The x86-64, arm64 and portable code generated for a prime return identical values for identical inputs.",["src/fr.asm.ejs","src/fr_raw_arm64.s.ejs","src/fr_raw_generic.cpp.ejs"],"raw kernels", reason=NAWHY+" (The arm64 one cannot run here either.)")
na("C23","Extension fields are fields","Operations of the quadratic, sextic and dodecic extensions satisfy the field laws and agree with polynomial arithmetic modulo the defining polynomials for every non-residue parameter.",["c/f2field.cpp","c/f6field.cpp","c/f12field.cpp"],"tower arithmetic")
na("C24","Curve operations implement the group law","Addition, doubling, negation, subtraction, equality and conversions agree with the affine group law for every pair of points and representations, including infinity, equal and opposite points.",["c/curve.cpp"],"Jacobian/affine formulas")
na("C25","Single scalar multiplication and NAF are exact","The NAF of a scalar has its value, and scalar multiplication of any point by any byte string equals repeated addition.",["c/naf.cpp","c/exp.hpp"],"NAF recoding", reason=NAWHY+" (Its use inside MSM/multiexp is exercised under C05/C06.)")
na("C26","Conversions to and from strings, big integers and byte strings round-trip","Parsing what was printed, and importing what was exported, gives back the element, for every element, base and byte order.",["src/fr.cpp.ejs"],"toString/fromString/toMpz/fromMpz/toRprBE/fromRprBE")
na("C27","The string splitter parses every nested list","Splitting a bracketed string returns its elements for every nesting, and terminates for every string.",["c/splitparstr.cpp"],"recursive splitter")
na("C29","The point-parallel processor evaluates its operation graph like a sequential one","Batched affine additions with a shared inversion give the sums a sequential evaluation gives, whatever the batching and worker count.",["c/pointparallelprocessor.hpp"],"operation levels",
   reason="Its implementation file and two of its headers are not in the repository (pointparallelprocessor.cpp, growablearray_mt.hpp, thread_utils.hpp), so there is no code to run under a simulator.", over=("schedules","inputs"))

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
json.dump(NA, open(os.path.join(here,"tools","na.json"),"w"), indent=1)
for p in P:
    assert len(p["title"])<=80, p["id"]
print(len(P), "properties,", len(NA), "not applicable")

// Deterministic simulator: interface for scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
namespace sim {
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
                 z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? (u64)(((unsigned __int128)next() * n) >> 64) : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a) + 1); }
    bool chance(u64 num, u64 den) { return below(den) < num; }
};
u64 mix(u64 a, u64 b);

// Workload parameters of one run: what the replay file carries. `lo` is the smallest meaningful value (for shrinking).
struct Params {
    struct E { char k[20]; i64 v, lo; };
    int n = 0; E e[40];
    void set(const char *k, i64 v, i64 lo = INT64_MIN);   // lo omitted: do not shrink
    i64 get(const char *k, i64 dflt = 0) const;
    i64 operator[](const char *k) const { return get(k); }
};

struct Scenario {
    const char *name;
    void (*gen)(Rng &, Params &, int tier);
    void (*run)(const Params &);
    Scenario *nxt;
    Scenario(const char *n, void (*g)(Rng &, Params &, int), void (*r)(const Params &));
};

enum Fault { F_SPURIOUS, F_NOTIFY_ANY, F_CREATE, F_ALLOC, F_TEAM, F_THROW, F_OPEN, F_FSTAT, F_MMAP, F_READ,
             F_TORN, F_BITFLIP, F_ZEROPAGE, F_HOSTILE, F_MUTATE, F_CLOCK, F_STALL, F_MISSING, F_NOISE, F_ALIAS, F_ORDER, F_NKIND };

enum Policy { P_WALK, P_PCT, P_SYNC, P_STARVE, P_BURST, P_RR, P_SERIAL, P_NPOL };

[[noreturn]] void viol(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
int self();                       // simulated thread id (0 = scenario main)
void point();                     // explicit preemption point
u64 steps();
void obs(u64 v);                  // fold into the run hash
void note_fault(Fault f);         // count an injected fault done by the scenario itself
void set_hw(int n);               // processors reported
void arm(Fault f, i64 k, int err = 0);  // the k-th (0-based) occurrence from now fails; k<0 disarms
bool fired(Fault f);
i64 occurrences(Fault f);         // since arm / run start
void race_on(bool);
struct NoFault { NoFault(); ~NoFault(); };   // allocations in here never fail
struct Quiet { Quiet(); ~Quiet(); };   // no preemption, no checks: harness bookkeeping
void protect(const void *p, size_t n); // stores into it are violations
void unprotect();
u64 alloc_mark();
u64 leaked(u64 mark, u64 *bytes = nullptr, u64 *firstsz = nullptr); // blocks allocated since mark and still live
bool is_live(const void *p, size_t n);
void check_read(const void *p, size_t n);  // as if the program read it
void check_write(const void *p, size_t n);
int live_threads();               // simulated threads that have not ended (OpenMP helpers excluded)
void expect_threads_end();        // at process exit only thread 0 may be alive
void fail_if_over(u64 maxsteps);
void step_begin();                // machine-instruction preemption for this thread (program text only)
void step_end();
extern void (*step_hook)();       // called at every stepped instruction
void set_budget(u64 fair_after, u64 hard);
u64 maps_open(); u64 fds_open();
void advance(u64 ns);
void *raw_alloc(size_t n);        // unaccounted memory
void fail_site_only(bool);        // (unused)
}

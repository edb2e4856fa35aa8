// C33: the static initialisers of every translation unit run inside the simulated program, in an order drawn by the seed.
#include "rt.h"
#include "rt_int.h"
#include "fieldaux.h"
#include "startup.h"
#include <vector>
#include <initializer_list>
using sim::Params; using sim::Rng; typedef uint64_t u64; typedef sim::i64 i64;
typedef void (*Init)();
#define SEC(x) extern "C" Init __start_simia_##x[] __attribute__((weak)); extern "C" Init __stop_simia_##x[] __attribute__((weak));
#define ALL(M) M(fr) M(fq) M(fs) M(fl) M(fr_g) M(fq_g) M(fs_g) M(fl_g) M(fr_rg) M(fq_rg) M(fs_rg) M(fl_rg) M(bn128) M(naf) M(splitparstr) M(misc) M(usera) M(userb)
ALL(SEC)
#define ENT(x) {#x, __start_simia_##x, __stop_simia_##x},
static struct { const char *n; Init *b, *e; } unit[] = {ALL(ENT)}; static const int NU = sizeof unit / sizeof unit[0];
void user_work_a(startup::Out *, u64, int, int); void user_work_b(startup::Out *, u64, int, int); void user_globals_a(startup::Out *, u64); void user_globals_b(startup::Out *, u64);
static const Params *par; static bool ref; static fieldaux::Slot *slot() { return fieldaux::slots(); }
static u64 seed_of(int phase, int user) { return sim::mix((*par)["cseed"], phase * 2 + user); }
static int count(int phase, int user) { return (int)(*par)[phase == 0 ? (user ? "nb" : "na") : phase == 1 ? "nm" : "nd"]; }
static void work(int phase, int user, int what, startup::Out *o) { o->h = o->n = 0; (user ? user_work_b : user_work_a)(o, seed_of(phase, user), count(phase, user), what); }
static const char *where[] = {"in a static constructor", "in main", "in a static destructor", "on a user's global object"};
static void check(int phase, int user, startup::Out &o) { fieldaux::Slot &w = slot()[phase * 2 + user]; sim::obs(o.h); if (!w.ok) return; if (w.h != o.h || w.n != o.n) sim::viol("wrong-result", "work %s of translation unit %c gave another result than later on in a program started in another order", where[phase], 'a' + user); }
void startup::constructed(int user) { if (ref) return; Out o; work(0, user, (*par)["pools"] ? 1 : 0, &o); check(0, user, o); }
void startup::destroyed(int user) { if (ref || !sim::G.on) return; Out o; work(2, user, 0, &o); check(2, user, o); }
static void start(bool canonical) {
    if (!canonical) sim::note_fault(sim::F_ORDER); int ord[NU]; for (int i = 0; i < NU; i++) ord[i] = i;
    if (!canonical) { Rng r((u64)(*par)["order"]); int k = (int)(*par)["mode"]; if (k == 1) { for (int i = 0; i < NU / 2; i++) { int t = ord[i]; ord[i] = ord[NU - 1 - i]; ord[NU - 1 - i] = t; } } else if (k == 2) { int a = (int)r.below(NU), b = (int)r.below(NU), t = ord[a]; ord[a] = ord[b]; ord[b] = t; } else for (int i = NU - 1; i > 0; i--) { int j = (int)r.below(i + 1), t = ord[i]; ord[i] = ord[j]; ord[j] = t; } }
    for (int i : ord) for (Init *f = unit[i].b; f != unit[i].e; f++) { sim::obs(i); (*f)(); }
}
static void alone_(void *p, fieldaux::Slot &s) {
    int k = *(int *)p, phase = k / 2, user = k % 2; ref = true; start(true); startup::Out o = {0, 0};
    if (phase == 3) (user ? user_globals_b : user_globals_a)(&o, seed_of(3, user)); else work(phase, user, phase == 0 ? ((*par)["pools"] ? 1 : 0) : phase == 1 ? 2 : 0, &o);
    s.h = o.h; s.n = o.n;
}
static void gen(Rng &r, Params &p, int) {
    p.set("na", 1 + r.below(3), 0); p.set("nb", r.below(3), 0); p.set("nm", r.below(3), 0); p.set("nd", r.below(3), 0); p.set("glob", r.chance(2, 3), 0); p.set("pools", r.chance(1, 3), 0); p.set("mode", r.below(4)); p.set("order", (i64)(r.next() >> 1)); p.set("cseed", (i64)(r.next() >> 1)); p.set("hw", 1 + r.below(4), 1); p.set("race", r.chance(1, 3), 0); p.set("gapmin", 200);
}
static void run_(const Params &p) {
    par = &p; sim::set_hw((int)p["hw"]); int ph[4] = {1, 1, 1, (int)p["glob"]};
    for (int k = 0; k < 8; k++) { slot()[k].ok = 0; if (ph[k / 2] && (k / 2 == 3 || count(k / 2, k % 2))) fieldaux::alone(k, alone_, &k); }
    if (p["race"]) sim::race_on(true);
    start(false);
    for (int u = 0; u < 2; u++) { startup::Out o; if (count(1, u)) { work(1, u, 2, &o); check(1, u, o); } if (p["glob"]) { o.h = o.n = 0; (u ? user_globals_b : user_globals_a)(&o, seed_of(3, u)); check(3, u, o); } }
    sim::expect_threads_end();
}
static sim::Scenario s_("startup", gen, run_);

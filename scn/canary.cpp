// Known-bad programs: the simulator has to report each of them (check.py runs them before every search).
// Name: canary_<expected class>_<n>
#include "rt.h"
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <cstdlib>
#include <mutex>
#include <thread>
#include <vector>
using sim::Params; using sim::Rng;
static void g0(Rng &r, Params &p, int) { p.set("k", r.below(8)); }
// a wakeup sent between the waiter's test and its wait
static void lost_wakeup(const Params &) {
    std::mutex m; std::condition_variable cv; std::atomic<bool> ready(false);
    std::thread t([&] { std::unique_lock<std::mutex> l(m); while (!ready) cv.wait(l); });
    ready = true; cv.notify_one(); t.join();
}
static void abba(const Params &) { std::mutex a, b; std::thread t([&] { std::lock_guard<std::mutex> x(a); std::lock_guard<std::mutex> y(b); }); { std::lock_guard<std::mutex> x(b); std::lock_guard<std::mutex> y(a); } t.join(); }
static void race(const Params &) { sim::race_on(true); std::mutex m; int x = 0; std::thread t([&] { { std::lock_guard<std::mutex> l(m); } x = 1; }); { std::lock_guard<std::mutex> l(m); } x = 2; t.join(); }
static void lost_update(const Params &) { int x = 0; auto f = [&] { for (int i = 0; i < 3; i++) { int v = *(volatile int *)&x; *(volatile int *)&x = v + 1; } }; std::thread t(f); f(); t.join(); if (x != 6) sim::viol("lost-update", "%d", x); }
static void overread(const Params &p) { std::vector<char> v(13); volatile char s = 0; s += v.data()[13 + p["k"] % 2]; }
static char sink[64];
static void overcopy(const Params &p) { char *q = new char[9]; memcpy(sink, q, 10 + p["k"]); delete[] q; }
static void uaf(const Params &) { int *q = new int(1); std::thread t([=] { delete q; }); volatile int v = 0; for (int i = 0; i < 4; i++) v = v + *(volatile int *)q; t.join(); }
static void livelock(const Params &) { sim::set_budget(5000, 20000); std::atomic<int> f(0); while (!f.load()) ; }
static void protect(const Params &) { int *q = new int[4]; sim::protect(q, 16); std::thread t([=] { volatile int *v = q; v[2] = v[2]; }); t.join(); }
static void crash(const Params &) { ((void (*)())0)(); }
static void wrong_free(const Params &) { char *volatile q = new char[9]; free(q); }
static sim::Scenario a0("canary_bad-free_1", g0, wrong_free);
static sim::Scenario a("canary_deadlock_wakeup", g0, lost_wakeup), b("canary_deadlock_abba", g0, abba), c("canary_data-race_1", g0, race), d("canary_lost-update_1", g0, lost_update),
    e("canary_bad-memory_read", g0, overread), f("canary_bad-memory_copy", g0, overcopy), g("canary_bad-memory_uaf", g0, uaf), h("canary_no-progress_1", g0, livelock), i("canary_input-modified_1", g0, protect), j("canary_crash_1", g0, crash);

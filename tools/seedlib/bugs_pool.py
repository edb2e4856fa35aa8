H = "c/misc.hpp"
bug("c01-ceil-shares", "C01", "a range only slightly longer than the pool's thread count (10 over 8 threads)", "Rounding share sizes up makes the last share negative; earlier ones run past the end of the range.",
 [(H, """        const int jobSize = elementCount / threadCount;
        const int elementRest = elementCount % threadCount;

        std::vector<int> jobs(threadCount, jobSize);

        for (int i = 0; i < elementRest; i++) {
            jobs[i] += 1;
        }
""", """        // equal shares, the last thread takes what is left
        const int jobSize = (elementCount + threadCount - 1) / threadCount;

        std::vector<int> jobs(threadCount, jobSize);

        jobs[threadCount - 1] = elementCount - jobSize * (threadCount - 1);
""")], r'''#include "demo.h"
#include "misc.hpp"
int main() {
    for (int n = 1; n < 400; n++) for (int t = 1; t < 17; t++) {
        static ThreadPool *pools[17]; if (!pools[t]) pools[t] = new ThreadPool(t);
        std::vector<std::atomic<int>> hit(n); std::atomic<int> out(0); for (auto &h : hit) h = 0;
        pools[t]->parallelFor(0, n, [&](int b, int e, int k) { for (int i = b; i < e; i++) if (i < 0 || i >= n) out++; else hit[i]++; });
        if (out) FAIL("n=%d threads=%d: %d indices outside the range", n, t, (int)out);
        for (auto &h : hit) if (h != 1) FAIL("n=%d threads=%d: an index ran %d times", n, t, (int)h);
    }
    _exit(0);
}
''', ["misc.cpp"])

bug("c01-unlock-while-running", "C01", "the caller reaches wait() while a worker is still inside its share", "The worker takes the task out of its slot before running it, so wait() sees an empty slot and the call returns while the share still runs.",
 [(H, """        while (true) {
            {
                std::unique_lock<std::mutex> lock(mutex);
""", """        while (true) {
            std::function<void()> job;
            {
                std::unique_lock<std::mutex> lock(mutex);
"""), (H, """                task();
                task = nullptr;
            }
            finished""", """                job.swap(task);
            }
            // do not keep submitters waiting for the lock during a long job
            job();
            finished""")], r'''#include "demo.h"
#include "misc.hpp"
int main() {
    ThreadPool pool(3); std::atomic<int> done(0);
    for (int r = 0; r < 5; r++) {
        done = 0;
        pool.parallelFor(0, 3, [&](int b, int e, int k) { if (k != 2) std::this_thread::sleep_for(std::chrono::milliseconds(60)); else std::this_thread::sleep_for(std::chrono::milliseconds(20)); done += e - b; });
        if (done != 3) FAIL("the call returned with %d of 3 shares finished", (int)done);
    }
    _exit(0);
}
''', ["misc.cpp"])

bug("c02-spurious", "C02", "a spurious wakeup of an idle worker", "A worker woken without a task runs an empty function object and the process dies.",
 [(H, "                occupied.wait(lock, [this]{return task != nullptr || stop;});\n", "                if (task == nullptr && !stop) {\n                    occupied.wait(lock);\n                }\n")], r'''#include "demo.h"
static std::atomic<int> waits(0);
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static int (*real)(pthread_cond_t *, pthread_mutex_t *) = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    if (waits++ % 2 == 0) { pthread_mutex_unlock(m); usleep(1000); pthread_mutex_lock(m); return 0; }   // POSIX allows this
    return real(c, m);
}
#include "misc.hpp"
int main() {
    watchdog(60);
    for (int r = 0; r < 20; r++) {
        ThreadPool pool(4); std::atomic<int> n(0);
        usleep(5000);
        for (int i = 0; i < 5; i++) { pool.parallelFor(0, 40, [&](int b, int e, int k) { n += e - b; }); usleep(2000); }
        if (n != 200) FAIL("%d of 200", (int)n);
    }
    if (waits < 10) { puts("wait is not interposed"); _exit(2); }
    _exit(0);
}
''', ["misc.cpp"])

bug("c02-unknown-cpus", "C02", "a machine that reports an unknown number of processors (0)", "The default pool asks for 0-1 workers.",
 [(H, """        unsigned int n = std::thread::hardware_concurrency();

        return n == 0 ? 1 : n;
""", """        return std::thread::hardware_concurrency();
""")], r'''#define NPROCS 0
#include "demo.h"
#include "misc.hpp"
#include <sys/resource.h>
int main() {
    rlimit l; l.rlim_cur = l.rlim_max = 2ul << 30; setrlimit(RLIMIT_AS, &l);
    if (std::thread::hardware_concurrency() != 0) { puts("processor count not interposed"); return 2; }
    try { ThreadPool pool; int n = 0; if (pool.getThreadCount() < 1) FAIL("no threads"); pool.parallelFor(0, 5, [&](int b, int e, int k) { n += e - b; }); if (n != 5 && pool.getThreadCount() == 1) FAIL("%d of 5", n); }
    catch (std::exception &e) { FAIL("%s", e.what()); }
    _exit(0);
}
''', ["misc.cpp"])

bug("c02-stop-first", "C02", "the destructor runs between a worker's test of stop and its wait", "The worker tests stop outside the lock and then sleeps without testing it again: the shutdown wakeup is lost and the destructor hangs.",
 [(H, """        while (true) {
            {
                std::unique_lock<std::mutex> lock(mutex);

                occupied.wait(lock, [this]{return task != nullptr || stop;});

                if (stop) {
                    return;
                }

                task();
""", """        while (!stop) {
            {
                std::unique_lock<std::mutex> lock(mutex);

                if (task == nullptr) {
                    occupied.wait(lock);
                }

                if (stop) {
                    return;
                }
                if (task == nullptr) {
                    continue;
                }

                task();
""")], r'''#include "demo.h"
static std::atomic<int> slow(0); static thread_local bool worker_thread = false;
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {     // delay a fresh worker between its start and its first lock
    static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (slow && gettid() != getpid() && !worker_thread) { worker_thread = true; if (slow-- > 0) usleep(100000); }
    return real(m);
}
#include "misc.hpp"
int main() {
    watchdog(30);
    usleep(10000);
    for (int r = 0; r < 4; r++) { slow = 1; ThreadPool pool(2); usleep(r * 10000); }
    _exit(0);
}
''', ["misc.cpp"])

bug("c03-shares-in-pool", "C03", "a second caller with a different range enters between the first caller's computing and reading its shares", "The shares of a call are kept in the pool object to avoid an allocation per call; a second caller overwrites them.",
 [(H, "    unsigned int nThreads;\n    std::vector<ThreadWorker> workers;\n", "    unsigned int nThreads;\n    std::vector<int> jobs;          // reused by every call\n    std::vector<ThreadWorker> workers;\n"),
  (H, "        const auto jobs = divideWork(elementCount, nThreads);\n", "        jobs = divideWork(elementCount, nThreads);\n")], r'''#include "demo.h"
#include "misc.hpp"
int main() {
    watchdog(100);
    ThreadPool pool(4); std::atomic<bool> bad(false); std::vector<std::thread> th;
    for (int c = 0; c < 3; c++) th.emplace_back([&, c] {
        for (int r = 0; r < 4000 && !bad; r++) {
            int n = c == 0 ? 7 + r % 50 : c == 1 ? 1000 + r % 100 : 40; std::atomic<long> sum(0); std::atomic<int> cnt(0);
            pool.parallelFor(0, n, [&](int b, int e, int k) { long s = 0; for (int i = b; i < e && i < b + 5000; i++) s += i; sum += s; cnt += e - b; });
            if (cnt != n || sum != (long)n * (n - 1) / 2) bad = true;
        }
    });
    for (auto &t : th) t.join();
    if (bad) FAIL("a caller's loop did not run its own range");
    _exit(0);
}
''', ["misc.cpp"])

bug("c03-notify-one", "C03", "two callers wait for the same worker when it finishes", "Only one of the threads waiting for a worker is woken; the other sleeps for ever.",
 [(H, "    void wait() {\n        std::unique_lock<std::mutex> lock(mutex);\n\n        finished.wait(lock, [this]{return task == nullptr;});\n", "    void wait() {\n        std::unique_lock<std::mutex> lock(mutex);\n\n        // one waiter is woken per job\n        finished.wait(lock, [this]{return task == nullptr;});\n"), (H, "            finished.notify_all();\n", "            finished.notify_one();\n"), (H, "        while (true) {\n            {\n                std::unique_lock<std::mutex> lock(mutex);\n", "        for (;;) {\n            {\n                std::unique_lock<std::mutex> lock(mutex);\n")], r'''#include "demo.h"
static thread_local bool caller = false;
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {     // a worker that is scheduled late after its wakeup
    static int (*real)(pthread_cond_t *, pthread_mutex_t *) = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    int r = real(c, m);
    if (!caller) { pthread_mutex_unlock(m); usleep(20000); pthread_mutex_lock(m); }
    return r;
}
#include "misc.hpp"
int main() {
    watchdog(60);
    for (int r = 0; r < 30; r++) {
        ThreadPool pool(2); usleep(5000); std::vector<std::thread> th; std::atomic<int> n(0);
        for (int c = 0; c < 3; c++) th.emplace_back([&, c] { caller = true; usleep(c * 3000); pool.parallelFor(0, 2, [&](int b, int e, int k) { n += e - b; }); });
        for (auto &t : th) t.join();
        if (n != 6) FAIL("%d of 6", (int)n);
    }
    _exit(0);
}
''', ["misc.cpp"])

bug("c04-raw-workers", "C04", "the k-th thread creation fails during pool construction", "Workers kept by raw pointer are not destroyed when the constructor throws: their threads stay.",
 [(H, "    std::vector<ThreadWorker> workers;\n", "    std::vector<ThreadWorker*> workers;\n"),
  (H, "        workers(nThreads-1)\n    { }\n", "        workers(nThreads-1)\n    {\n        for (auto &worker : workers) {\n            worker = new ThreadWorker();\n        }\n    }\n\n    ~ThreadPool() {\n        for (auto worker : workers) {\n            delete worker;\n        }\n    }\n"),
  (H, "            workers[k].wait();\n        }\n    }\n\npublic:", "            workers[k]->wait();\n        }\n    }\n\npublic:"),
  (H, "workers[k].submit([=]{func(jobBegin", "workers[k]->submit([=]{func(jobBegin"), (H, "workers[k].submit([=]{func(k, ", "workers[k]->submit([=]{func(k, "),
  (H, "        for (k = 0; k < jobs.size() - 1; k++) {\n            workers[k].wait", "        for (k = 0; k < jobs.size() - 1; k++) {\n            workers[k]->wait"), (H, "        for (k = 0; k < nThreads - 1; k++) {\n            workers[k].wait", "        for (k = 0; k < nThreads - 1; k++) {\n            workers[k]->wait")], r'''#include "demo.h"
static std::atomic<int> countdown_t(-1);
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    if (countdown_t >= 0 && countdown_t-- == 0) return 11;
    return real(t, a, f, x);
}
#include "misc.hpp"
int main() {
    int before = threads_now(); countdown_t = 3; bool threw = false;
    try { ThreadPool pool(6); } catch (std::exception &e) { threw = true; }
    countdown_t = -1;
    if (!threw) FAIL("no exception");
    for (int i = 0; i < 50 && threads_now() != before; i++) usleep(10000);
    if (threads_now() != before) FAIL("%d threads were left running", threads_now() - before);
    { ThreadPool pool(6); std::atomic<int> n(0); pool.parallelFor(0, 60, [&](int b, int e, int k) { n += e - b; }); if (n != 60) FAIL("later pool"); }
    _exit(0);
}
''', ["misc.cpp"])

bug("c04-noexcept-share", "C04", "the caller's own share throws while another share is still running", "When the caller's share throws, the guard waits for one share too few: the exception reaches the caller while the last share handed out still runs.",
 [(H, "        int jobBegin = begin;\n        int k = 0;\n\n        try {", "        int jobBegin = begin;\n        int k = 0;\n        struct Done {\n            ThreadPool &pool; int &count; bool armed;\n            ~Done() { if (armed) pool.waitWorkers(count - 1); }\n        } done{*this, k, true};\n\n        try {"),
  (H, "            func(jobBegin, jobBegin + jobs[k], k);\n        } catch (...) {\n            waitWorkers(k);\n            throw;\n        }\n\n        for (k = 0; k < jobs.size() - 1; k++) {\n            workers[k].wait();\n        }\n", "            func(jobBegin, jobBegin + jobs[k], k);\n        } catch (...) {\n            throw;\n        }\n\n        done.armed = false;\n        waitWorkers(k);\n")], r'''#include "demo.h"
#include "misc.hpp"
int main() {
    watchdog(60);
    for (int t = 2; t < 6; t++) {
        ThreadPool pool(t); std::atomic<int> running(0);
        try { pool.parallelFor(0, t, [&](int b, int e, int k) { if (k == t - 1) throw 5; running++; usleep(k == t - 2 ? 150000 : 1000); running--; }); FAIL("exception lost"); }
        catch (int) { if (running) FAIL("threads=%d: the exception arrived while %d shares were running", t, (int)running); }
    }
    _exit(0);
}
''', ["misc.cpp"])

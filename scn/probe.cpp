#include "probe.h"
#include <cstring>
#include <cstdlib>
using namespace sim;
namespace probe {
struct Share { long b, e; int k; };
struct Call { bool block; long begin, end; int nthr, caller; Share sh[130]; int nsh, active; bool done; };
enum { MAXC = 256 };
static Call *calls; static int nc;
void reset() { nc = 0; }
int call_begin(bool block, int begin, int end, int nthr) {
    if (!calls) calls = (Call *)raw_alloc(sizeof(Call) * MAXC);
    if (nc >= MAXC) abort();
    Call &c = calls[nc]; c.block = block; c.begin = begin; c.end = end; c.nthr = nthr; c.nsh = 0; c.active = 0; c.done = false; c.caller = self();
    return nc++;
}
void enter(int id, int b, int e, int k, int nthr) {
    Call &c = calls[id];
    if (c.done) viol("share-after-return", "a share (thread number %d) of call %d started after the call had returned", k, id);
    if (k < 0 || k >= c.nthr) viol("thread-number", "share got thread number %d in a pool of %d", k, c.nthr);
    for (int i = 0; i < c.nsh; i++) if (c.sh[i].k == k) viol("thread-number", "two shares of call %d got thread number %d", id, k);
    if (c.block) { if (nthr != c.nthr) viol("thread-count", "a block was told there are %d threads, the pool has %d", nthr, c.nthr); }
    else {
        if (b > e || b < c.begin || e > c.end) viol("share-range", "share [%d,%d) is not inside the range [%ld,%ld)", b, e, c.begin, c.end);
        if (b != e) for (int i = 0; i < c.nsh; i++) if (c.sh[i].b != c.sh[i].e && b < c.sh[i].e && c.sh[i].b < e) viol("share-overlap", "shares [%d,%d) and [%ld,%ld) overlap", b, e, c.sh[i].b, c.sh[i].e);
    }
    if (c.nsh >= 130) viol("share-range", "more than 130 shares");
    c.sh[c.nsh].b = b; c.sh[c.nsh].e = e; c.sh[c.nsh].k = k; c.nsh++; c.active++;
    obs(((u64)id << 32) ^ ((u64)k << 8) ^ 1);
}
void leave(int id) {
    Call &c = calls[id];
    if (c.done) viol("share-after-return", "a share of call %d was still running after the call had returned", id);
    c.active--;
}
static void ended(int id, const char *how) {
    Call &c = calls[id];
    if (c.active) viol("early-return", "call %d %s while %d of its shares were still running", id, how, c.active);
    c.done = true;
}
void call_end(int id) {
    Call &c = calls[id];
    ended(id, "returned");
    if (c.block) { if (c.nsh != c.nthr) viol("lost-share", "call %d returned after running the block for %d of %d threads", id, c.nsh, c.nthr); return; }
    long total = 0; for (int i = 0; i < c.nsh; i++) total += c.sh[i].e - c.sh[i].b;
    long want = c.end > c.begin ? c.end - c.begin : 0;
    if (total != want) viol("lost-share", "call %d returned after covering %ld of %ld indices", id, total, want);
}
void call_failed(int id) { ended(id, "threw"); }
int entered(int id) { return calls[id].nsh; }
bool is_caller(int id) { return calls[id].caller == self(); }
}

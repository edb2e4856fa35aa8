// C28: every routine of the generated assembly under adverse register contents, stale memory and interruption at any instruction.
#include "fieldaux.h"
#include "fieldwrap.h"
#include "rt.h"
#include <climits>
#include <cstring>
#include <cstdlib>
#include <thread>
#include <vector>
using namespace sim;
extern "C" { struct Q1 { int s; unsigned t; u64 v[16]; }; extern Q1 Fr_q, Fq_q, Fs_q, Fl_q; }
static const u64 *mods[] = {Fr_q.v, Fq_q.v, Fs_q.v, Fl_q.v};
static const int GUARD = 64, MAXEL = 8 + 8 * 8;
struct Buf { u8 b[GUARD + 4 * MAXEL + GUARD]; size_t n; u8 *p() { return b + GUARD; } };
struct Call { int fn, alias, at[3]; u64 seed, noise; int n; long ret; Buf in[3], out[3]; };      // in[i]: contents before, out[i]: contents after the reference execution
static void noise_fill(Rng &r, u8 *p, size_t n) { for (size_t i = 0; i < n; i += 8) { u64 v = r.next(); memcpy(p + i, &v, n - i < 8 ? n - i : 8); } }
static void elem(Rng &r, u8 *p, int n64, const u64 *q, bool small, bool raw, bool count) {
    u64 v[16]; fieldaux::rnd_mod(r, v, q, n64); int s = fieldaux::rnd_short(r); u32 t; int k = small ? (int)r.below(2) : (int)r.below(5);
    if (count) { s = (int)r.below(64 * n64); k = 0; }
    if (raw) { memcpy(p, v, 8 * n64); return; }
    if (k <= 1) { if (small && s < 0) s = s == INT_MIN ? 0 : -s; t = k ? 0x40000000u : 0; fieldaux::small_mod(v, s, q, n64); if (k) fieldaux::to_mont(v, v, q, n64); } else { t = k == 2 || k == 4 ? 0x80000000u : 0xC0000000u; s = (int)r.next(); }
    memcpy(p, &s, 4); memcpy(p + 4, &t, 4); memcpy(p + 8, v, 8 * n64);
}
static void make(Call &c) {
    Rng r(c.seed); const AsmFn &f = asm_table[c.fn]; const u64 *q = mods[f.field]; c.n = 1 + (int)r.below(4); bool toint = strstr(f.name, "_toInt");
    for (int i = 0; f.sig[i]; i++) { Buf &b = c.in[i]; noise_fill(r, b.b, sizeof b.b); char k = f.sig[i]; size_t el = 8 + 8 * f.n64, raw = 8 * f.n64; bool copyn = strstr(f.name, "_copyn");
        b.n = k == 'W' || k == 'E' ? el * (copyn ? c.n : 1) : k == 'u' || k == 'n' ? 0 : raw;
        if (k == 'E') for (size_t o = 0; o < b.n; o += el) elem(r, b.p() + o, f.n64, q, toint, false, false);
        if (k == 'R' || k == 'S') elem(r, b.p(), f.n64, q, false, true, false);
        if (k == 'u') { u64 v = strstr(f.name, "Sh") ? r.below(64 * f.n64) : r.next() >> r.below(64); memcpy(b.p(), &v, 8); }
        if (k == 'n') { u64 v = (r.next() << 32) | (u32)c.n; memcpy(b.p(), &v, 8); } }      // the upper half of an int argument is undefined
    for (int i = 0; i < 3; i++) c.at[i] = i;      // which buffer each argument uses
    bool two = strlen(f.sig) > 2 && c.in[2].n, dst = f.sig[0] == 'W' || f.sig[0] == 'w', src1 = f.sig[1] && c.in[1].n;
    if (dst && src1 && (c.alias == 1 || c.alias == 3)) c.at[1] = 0;
    if (dst && two && (c.alias == 2 || c.alias == 3)) c.at[2] = 0;
    if (two && c.alias == 4) c.at[2] = 1;
    if (c.at[2] == 1 || (c.at[1] == 0 && c.at[2] == 0)) c.in[2] = c.in[1];
    if (c.at[1] == 0) c.in[0] = c.in[1]; else if (c.at[2] == 0) c.in[0] = c.in[2];
}
static bool same_elem(const u8 *a, const u8 *b, int n64) { u32 t, u; memcpy(&t, a + 4, 4); memcpy(&u, b + 4, 4); return t == u && (t & 0x80000000u ? !memcmp(a + 8, b + 8, 8 * n64) : !memcmp(a, b, 4)); }
static long exec(Call &c, Buf *w, u64 noise, bool step, bool apart = false) {        // w: working copies
    const AsmFn &f = asm_table[c.fn]; long args[6]; Rng r(noise); for (long &a : args) a = (long)r.next();
    for (int i = 0; f.sig[i]; i++) { w[i] = c.in[i]; if ((f.sig[i] == 'W' || f.sig[i] == 'w') && (apart || (c.at[1] != 0 && c.at[2] != 0))) noise_fill(r, w[i].p(), w[i].n); }
    for (int i = 0; f.sig[i]; i++) if (w[i].n) args[i] = (long)w[apart ? i : c.at[i]].p(); else memcpy(&args[i], w[i].p(), 8);
    if (step) step_begin();
    long ret = noisy(f.fn, args, noise);
    if (step) step_end();
    return f.ret ? (int)ret : 0;
}
static void verify(Call &c, Buf *w, long ret, const char *how) {
    const AsmFn &f = asm_table[c.fn];
    if (f.ret && ret != c.ret) viol("wrong-result", "%s returns %ld %s and %ld otherwise", f.name, ret, how, c.ret);
    for (int i = 0; f.sig[i]; i++) { if (!w[i].n) continue; char k = f.sig[i]; bool dst = k == 'W' || k == 'w' || k == 'S';
        if (c.at[i] != i) continue;
        if (memcmp(w[i].b, c.in[i].b, GUARD) || memcmp(w[i].p() + w[i].n, c.in[i].p() + w[i].n, sizeof w[i].b - GUARD - w[i].n)) viol("bad-memory", "%s writes outside argument %d", f.name, i);
        if (!dst) { if (memcmp(w[i].p(), c.in[i].p(), w[i].n)) viol("input-modified", "%s writes to its input %d", f.name, i); }
        else if (k == 'W') { size_t el = 8 + 8 * f.n64; for (size_t o = 0; o < w[i].n; o += el) if (!same_elem(w[i].p() + o, c.out[i].p() + o, f.n64)) viol("wrong-result", "%s gives another result %s", f.name, how); }
        else if (memcmp(w[i].p(), c.out[i].p(), w[i].n)) viol("wrong-result", "%s gives another result %s", f.name, how); }
}
static void gen(Rng &r, Params &p, int tier) { p.set("nthr", r.chance(1, 2) ? 1 : 2 + r.below(2), 1); p.set("nops", 1 + r.below(8), 1); p.set("same", r.chance(1, 3), 0); p.set("cseed", (i64)(r.next() >> 1)); p.set("gapmin", 1); }
static void run(const Params &p) {
    int T = (int)p["nthr"], K = (int)p["nops"]; std::vector<Call> cs((size_t)(T * K)); Rng r((u64)p["cseed"]); asm_config(0, 0); step_hook = nullptr;
    int fn0 = (int)r.below((u64)asm_table_n);
    for (Call &c : cs) { c.fn = p["same"] ? fn0 : (int)r.below((u64)asm_table_n); c.alias = r.chance(2, 5) ? 1 + (int)r.below(4) : 0; c.seed = r.next(); c.noise = r.next(); { Quiet q; make(c); c.ret = exec(c, c.out, mix(c.seed, 1), false, true); verify(c, c.out, c.ret, ""); } }
    auto body = [&](int t) { for (int k = 0; k < K; k++) { Call &c = cs[(size_t)(t * K + k)]; Buf w[3]; long ret = exec(c, w, c.noise, true); verify(c, w, ret, "with other contents of undefined registers and of its destination, when its operands overlap exactly, or when interrupted"); obs((u64)ret); } };
    std::vector<std::thread> th; for (int t = 1; t < T; t++) th.emplace_back(body, t);
    body(0); for (auto &x : th) x.join();
}
static Scenario s_abi("abi", gen, run);

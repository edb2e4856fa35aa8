#include "fieldwrap.h"
#include "rt_int.h"
#include <sys/types.h>
extern "C" { extern char __start_asmdata[] __attribute__((weak)), __stop_asmdata[] __attribute__((weak)), __start_asmbss[] __attribute__((weak)), __stop_asmbss[] __attribute__((weak)); }
namespace sim {
static int stride, phase; static int count[128];
struct Reg { const char *p; size_t n; char *copy; bool input; };
static Reg regs[40]; static int nregs; static bool in_hook;
static void hook() {     // what the current instruction changed in memory that is shared
    for (int i = 0; i < nregs; i++) {
        Reg &g = regs[i];
        if (!memcmp(g.p, g.copy, g.n)) continue;
        if (g.input) viol("input-modified", "an operation changed an operand other threads read");
        for (size_t k = 0; k < g.n; k += 8) { size_t m = g.n - k < 8 ? g.n - k : 8;
            if (memcmp(g.p + k, g.copy + k, m)) { memcpy(g.copy + k, g.p + k, m); check_write(g.p + k, m); } }
    }
}
static void add(const void *p, size_t n, bool input) { if (!n || nregs >= 40) return; Reg &g = regs[nregs]; g.p = (const char *)p; g.n = n; g.copy = (char *)raw_alloc(n); memcpy(g.copy, p, n); g.input = input; nregs++; }
void asm_config(int s, int ph) {
    stride = s; phase = ph; memset(count, 0, sizeof count); nregs = 0;
    if (__start_asmdata) add(__start_asmdata, __stop_asmdata - __start_asmdata, false);
    if (__start_asmbss) add(__start_asmbss, __stop_asmbss - __start_asmbss, false);
    step_hook = hook;
}
void watch_shared(const void *p, size_t n) { add(p, n, true); }
void unwatch() { nregs = 0; }
// Calls fn with every register the calling convention leaves undefined set to noise, arithmetic flags too; registers the callee must keep have to come back unchanged.
extern "C" long sim_noisy(long (*fn)(long, long, long, long, long, long), const long *args, u64 noise, u64 *bad);
__asm__(R"(
 .section simtext,"ax",@progbits
 .globl sim_noisy
sim_noisy:
 push %rbp
 push %rbx
 push %r12
 push %r13
 push %r14
 push %r15
 sub $40, %rsp
 mov %rdx, (%rsp)
 mov %rcx, 8(%rsp)
 mov %rdi, 16(%rsp)
 mov %rdx, %rbx
 lea 1(%rdx), %rbp
 lea 2(%rdx), %r12
 lea 3(%rdx), %r13
 lea 4(%rdx), %r14
 lea 5(%rdx), %r15
 lea 6(%rdx), %r10
 lea 7(%rdx), %r11
 movq %r11, %xmm0
 movq %r10, %xmm1
 mov %edx, %eax
 and $1, %al
 add $0x7f, %al
 mov %edx, %eax
 sahf
 lea 8(%rdx), %rax
 mov (%rsi), %rdi
 mov 16(%rsi), %rdx
 mov 24(%rsi), %rcx
 mov 32(%rsi), %r8
 mov 40(%rsi), %r9
 mov 8(%rsi), %rsi
 call *16(%rsp)
 pushfq
 pop %r10
 cld
 and $0x400, %r10
 mov (%rsp), %r11
 xor %r11, %rbx
 or %rbx, %r10
 lea 1(%r11), %rcx
 xor %rcx, %rbp
 or %rbp, %r10
 lea 2(%r11), %rcx
 xor %rcx, %r12
 or %r12, %r10
 lea 3(%r11), %rcx
 xor %rcx, %r13
 or %r13, %r10
 lea 4(%r11), %rcx
 xor %rcx, %r14
 or %r14, %r10
 lea 5(%r11), %rcx
 xor %rcx, %r15
 or %r15, %r10
 mov 8(%rsp), %rcx
 mov %r10, (%rcx)
 add $40, %rsp
 pop %r15
 pop %r14
 pop %r13
 pop %r12
 pop %rbx
 pop %rbp
 ret
 .text
)");
long noisy(long (*fn)(long, long, long, long, long, long), const long *args, u64 noise) {
    u64 bad = 0; long r = sim_noisy(fn, args, noise, &bad);
    if (bad) { if (G.on) viol("register-lost", "an assembly routine changed a register (or flag) it must preserve"); else __builtin_trap(); }
    return r;
}
static long noisy(long (*fn)(long, long, long, long, long, long), long a, long b, long c, long d, long e, long f) {
    long args[6] = {a, b, c, d, e, f}; return noisy(fn, args, G.on ? mix(steps() * 131 + self(), 77) : 0x5EED5EED5EEDull);
}
long asm_call(long (*fn)(long, long, long, long, long, long), long a, long b, long c, long d, long e, long f) {
    int t = self(); long r;
    if (!G.on) return noisy(fn, a, b, c, d, e, f);
    if (t >= 0 && t < 128 && stride && count[t]++ % stride == phase) { step_begin(); r = noisy(fn, a, b, c, d, e, f); step_end(); if (nregs) hook(); }
    else { point(); r = noisy(fn, a, b, c, d, e, f); if (nregs && t >= 0) hook(); point(); }
    return r;
}
}

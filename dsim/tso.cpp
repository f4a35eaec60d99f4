// Every memory access of the simulated code comes through dsim_mem() first (tools/asmsim.py put the calls there).
// Stores stay in the storing thread's buffer until they drain, oldest first: memory holds what everybody sees, plus the
// running thread's own buffered stores (undone when another thread runs, redone when it comes back).
#include "tso.hpp"
#include <string.h>
namespace dsim {
extern void (*on_switch)(int from, int to);
extern uint64_t thr_fair; extern void (*on_sync)(); uint64_t mySteps(); bool onOwnStack(uintptr_t a); bool noPreempt();
struct Ent { uintptr_t a; unsigned n; unsigned char old[16], nw[16]; uint64_t born, age; };
enum { CAP = 12, NT = 48 };
static Ent B[NT][CAP]; static unsigned NB[NT]; static bool g_on; static unsigned g_total, g_cap; static uint64_t g_late, g_span, g_delayed, g_split, g_acc;
static void apply(int t) { for (unsigned i = 0; i < NB[t]; ++i) { Ent &e = B[t][i]; memcpy(e.old, (void *)e.a, e.n); memcpy((void *)e.a, e.nw, e.n); } }
static void undo(int t) { for (unsigned i = NB[t]; i-- > 0;) { Ent &e = B[t][i]; memcpy(e.nw, (void *)e.a, e.n); memcpy((void *)e.a, e.old, e.n); } }
static void pop(int t) { memmove(&B[t][0], &B[t][1], sizeof(Ent) * (--NB[t])); --g_total; }
static void commitOne(int t, bool running) { if (!running) { Ent &e = B[t][0]; memcpy((void *)e.a, e.nw, e.n); } pop(t); }
static void drainOwn(int t) { g_total -= NB[t]; NB[t] = 0; }
static void sync() { drainOwn(tid()); }
static void sw(int from, int to) { undo(from); apply(to); }
bool tsoPending(int t) { return NB[t] > 0; }
static void expire(int me) { // in order: a store waits for the ones before it
    if (!g_total) return;
    int cnt = threadCount(); uint64_t now = stepCount();
    for (int d = 0; d < cnt && d < NT; ++d) while (NB[d] && now - B[d][0].born >= B[d][0].age) { if (B[d][0].age) ++g_delayed; commitOne(d, d == me); }
}
void tsoBegin() {
    memset(NB, 0, sizeof NB); g_total = 0; g_delayed = g_split = g_acc = 0;
    g_cap = faultsEnabled() ? (unsigned)choose(S_CFG, 89, CAP) + 1 : 0; g_late = generating() ? 1 + rawAt(S_TSO, 90, 0) % 4 : 1; g_span = 4ull << (generating() ? rawAt(S_TSO, 90, 1) % 8 : 0);
    thr_fair = 300; on_switch = sw; on_sync = sync; g_on = true;
}
void tsoEnd() { for (int i = 0; i < NT; ++i) if (NB[i] && i != tid()) { while (NB[i]) commitOne(i, false); } drainOwn(tid()); g_on = false; on_switch = NULL; on_sync = NULL;
    if (g_delayed) fault("store-visible-late", g_delayed); probe("unlocked-update-split", g_split); probe("shared-accesses", g_acc); }
static bool overlaps(int t, uintptr_t a, unsigned n) { for (unsigned i = 0; i < NB[t]; ++i) if (a < B[t][i].a + B[t][i].n && B[t][i].a < a + (n ? n : 16)) return true; return false; }
}
using namespace dsim;
extern "C" void dsim_mem(uintptr_t a, unsigned code) {
    if (!g_on || !simActive()) return;
    unsigned kind = code >> 8, n = code & 255; int me = tid();
    if (noPreempt()) { if (kind == 1 || kind == 2 || kind == 3) { if (overlaps(me, a, n)) drainOwn(me); } else if (kind == 6) drainOwn(me); return; }
    if ((kind <= 2 || (kind == 3 && a)) && onOwnStack(a)) { if (kind == 3) { point(3); drainOwn(me); } return; }
    ++g_acc; expire(me);
    switch (kind) {
    case 0: point(0); break;
    case 1: case 2: {
        point(0);
        unsigned char v[16]; memcpy(v, (void *)a, n);
        if (kind == 2) { ++g_split; point(3); }     // not locked: others may run between its load and its store
        if (g_cap == 0) { if (kind == 2) memcpy((void *)a, v, n); break; }
        if (NB[me] >= g_cap) commitOne(me, true);
        uint32_t pos = (uint32_t)mySteps(); uint64_t age = 0;
        if (generating() && rawAt(S_TSO, me, pos) % (g_late + 1)) age = 1 + (rawAt(S_TSO, me, pos) >> 20) % g_span;
        age = decideAt(S_TSO, me, pos, age); if (!age && !NB[me]) { if (kind == 2) memcpy((void *)a, v, n); break; }
        Ent &e = B[me][NB[me]]; e.age = age; e.a = a; e.n = n; e.born = stepCount(); memcpy(e.old, (void *)a, n); ++NB[me]; ++g_total;
        if (kind == 2) memcpy((void *)a, v, n);
        break; }
    case 3: case 4: point(3); drainOwn(me); if (kind == 4) point(0); break;
    case 5: drainOwn(me); yieldForced(); break;      // a spinning processor's buffer drains meanwhile
    case 6: drainOwn(me); break;
    }
}
asm(".text\n.globl dsim_mem_stub\n.type dsim_mem_stub,@function\ndsim_mem_stub:\n"
    "pushfq\npushq %rax\npushq %rcx\npushq %rdx\npushq %r8\npushq %r9\npushq %r10\npushq %r11\npushq %rbx\n"
    "movq %rsp,%rbx\nsubq $512,%rsp\nandq $-64,%rsp\nfxsave64 (%rsp)\ncld\ncall dsim_mem\nfxrstor64 (%rsp)\nmovq %rbx,%rsp\n"
    "popq %rbx\npopq %r11\npopq %r10\npopq %r9\npopq %r8\npopq %rdx\npopq %rcx\npopq %rax\npopfq\nret\n.size dsim_mem_stub,.-dsim_mem_stub\n");

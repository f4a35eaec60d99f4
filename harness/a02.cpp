#ifndef A_VAR
#define A_VAR 2
#endif
#include "a.hpp"
#define SC2(p, n, v) SIM_SCENARIO(p, n##v)
#define SC1(p, n, v) SC2(p, n, v)
#define SW2(n, v) SIM_SCENARIO("A02", n##v, 3)
#define SW1(n, v) SW2(n, v)
#define SIM_SCENARIO_W(n, v) SW1(n, v)
#define PAUSE() asm volatile("pause")
using lintel::Atomic;
// small programs of stores and loads on several variables: one order of all operations must explain them
template<class T> static void litmus() {
    int nv = 2 + (int)choose(S_CFG, 1, 2), nt = 2 + (int)choose(S_CFG, 2, 3), per = 2 + (int)choose(S_CFG, 3, nt == 2 ? 4 : 3);
    std::vector<T> init; std::vector<Cell<T> > c(nv); T *plain = new T[8];
    for (int i = 0; i < nv; ++i) { init.push_back((T)choose(S_DATA, 80, 3)); c[i].at = new Atomic<T>(init[i]); c[i].pl = plain + i; plain[i] = init[i]; }
    unsigned un = (unsigned)choose(S_CFG, 5, 8);
    thrBegin(); tsoBegin(); g_nop = 0;
    for (int t = 0; t < nt; ++t) spawn([&, t] {
        for (int i = 0; i < per; ++i) {
            static const int ks[2][10] = {{K_STORE, K_LOAD, K_STORE, K_LOAD, K_ASSIGN, K_CONV, K_ISZERO, K_XCHG, K_CAS, K_FADD}, {K_USTORE, K_ULOAD, K_USTORE, K_ULOAD, K_USTORE, K_ULOAD, K_ULOAD, K_UXCHG, K_UCAS, K_UFADD}};
            unsigned s = tid(); int var = (int)choose(S_WORK, s, nv); bool u = un >> var & 1; int kind = ks[u][choose(S_WORK, s, 10)];
            doOp<T>(kind, c[var], var, (T)(t * 4 + i + 1), (T)(t * 4 + i + 40));
        } });
    joinAll(); tsoEnd(); thrEnd(); checkHistory<T>(init); finish();
}
#define BYTYPE(f) switch (choose(S_CFG, 0, 6)) { case 0: f<int>(); break; case 1: f<long>(); break; case 2: f<unsigned char>(); break; case 3: f<unsigned long>(); break; case 4: f<short>(); break; case 5: f<unsigned>(); break; }
SC1("A02", litmus_O, A_VAR) { BYTYPE(litmus) }

// data written plainly, published by one kind of operation (P), observed by another (O)
struct Sh { int d[4]; char pad0[64]; Atomic<int> x; char pad1[64]; volatile int ack; int plain; char pad2[64]; Atomic<int> y; volatile int go; };
enum { P_STORE, P_ASSIGN, P_XCHG, P_ADD, P_INC, P_CAS, P_PLUSEQ, P_OR, P_USTORE, P_UXCHG, P_UADD, P_XOR, P_N };
enum { O_LOAD, O_CONV, O_ADD0, O_CAS, O_OR0, O_ULOAD, O_UCAS, O_AND, O_N };
static int *asPlain(Atomic<int> *x) { return (int *)(void *)x; } // what the unsafe helpers do themselves
template<int P> static inline __attribute__((always_inline)) void pub(Atomic<int> &x, int r) { // r-1 -> r
    int e = r - 1;
    switch (P) { case P_STORE: x.store(r); break; case P_ASSIGN: x = r; break; case P_XCHG: x.exchange(r); break; case P_ADD: x.fetch_add(1); break; case P_INC: ++x; break; case P_CAS: x.compare_exchange_strong(&e, r); break; case P_PLUSEQ: x += 1; break;
        case P_OR: x.fetch_or(r); break; case P_USTORE: lintel::unsafe::atomic_store(asPlain(&x), r); break; case P_UXCHG: lintel::unsafe::atomic_exchange(asPlain(&x), r); break; case P_UADD: lintel::unsafe::atomic_fetch_add(asPlain(&x), 1); break; case P_XOR: x.fetch_xor((r - 1) ^ r); break; }
}
template<int O> static inline __attribute__((always_inline)) int obs(Atomic<int> &x) {
    int e = -77;
    switch (O) { case O_LOAD: return x.load(); case O_CONV: return x; case O_ADD0: return x.fetch_add(0); case O_CAS: x.compare_exchange_strong(&e, -78); return e; case O_OR0: return x.fetch_or(0); case O_ULOAD: return lintel::unsafe::atomic_load(asPlain(&x)); case O_UCAS: lintel::unsafe::atomic_compare_exchange_strong(asPlain(&x), &e, -78); return e; case O_AND: return x.fetch_and(-1); }
    return 0;
}
template<int P> static __attribute__((noinline)) void writer(Sh *s, int rounds) {
    int *d = s->d;
    for (int r = 1; r <= rounds; ++r) { d[0] = r; d[1] = r * 3; pub<P>(s->x, r); while (s->ack != r) PAUSE(); }
}
template<int O> static __attribute__((noinline)) void reader(Sh *s, int rounds, int step) {
    int *d = s->d;
    for (int r = 1; r <= rounds; ++r) {
        while (obs<O>(s->x) != r) PAUSE();
        int a = d[0], b = d[1];
        if (a != r || b != r * 3) violate("stale-data", "a thread that observed %d by operation %d read data %d, %d written before it", r, O, a, b);
        s->ack = r;
    }
}
typedef void (*W)(Sh *, int); typedef void (*R)(Sh *, int, int);
static const W writers[P_N] = {writer<0>, writer<1>, writer<2>, writer<3>, writer<4>, writer<5>, writer<6>, writer<7>, writer<8>, writer<9>, writer<10>, writer<11>};
static const R readers[O_N] = {reader<0>, reader<1>, reader<2>, reader<3>, reader<4>, reader<5>, reader<6>, reader<7>};
SC1("A02", publish_O, A_VAR) {
    int p = (int)choose(S_CFG, 1, P_N), o = (int)choose(S_CFG, 2, O_N), rounds = 1 + (int)choose(S_CFG, 3, 4); if (p == P_OR) rounds = 1;
    Sh *s = new Sh; memset(s->d, 0, sizeof s->d); s->ack = 0;
    thrBegin(); tsoBegin();
    spawn([&] { writers[p](s, rounds); }); spawn([&] { readers[o](s, rounds, 0); });
    joinAll(); ev("publish", p, o, stepCount()); tsoEnd(); thrEnd(); nontrivial(); finish();
}
// ownership goes back and forth: each side writes the data plainly while it owns it
template<int P, int O> static __attribute__((noinline)) void pingpong(Sh *s, int me, int rounds) {
    int *d = s->d;
    for (int r = 1; r <= rounds; ++r) {
        int turn = 2 * (r - 1) + me;
        while (obs<O>(s->x) != turn) PAUSE();
        if (d[0] != turn || d[1] != -turn) violate("stale-data", "owner number %d (by operation %d) found data %d, %d", turn, O, d[0], d[1]);
        d[0] = turn + 1; d[1] = -(turn + 1);
        pub<P>(s->x, turn + 1);
    }
}
typedef void (*PP)(Sh *, int, int);
static const PP pps[] = {pingpong<P_STORE, O_LOAD>, pingpong<P_ASSIGN, O_CONV>, pingpong<P_XCHG, O_LOAD>, pingpong<P_ADD, O_CONV>, pingpong<P_INC, O_LOAD>, pingpong<P_CAS, O_CAS>, pingpong<P_XOR, O_ADD0>, pingpong<P_USTORE, O_ULOAD>, pingpong<P_UXCHG, O_UCAS>, pingpong<P_UADD, O_ULOAD>, pingpong<P_PLUSEQ, O_OR0>, pingpong<P_STORE, O_AND>};
SC1("A02", handover_O, A_VAR) {
    int k = (int)choose(S_CFG, 1, sizeof(pps) / sizeof(pps[0])), rounds = 1 + (int)choose(S_CFG, 3, 4); Sh *s = new Sh; memset(s->d, 0, sizeof s->d);
    thrBegin(); tsoBegin(); for (int me = 0; me < 2; ++me) spawn([&, me] { pps[k](s, me, rounds); });
    joinAll(); ev("handover", k, stepCount()); tsoEnd(); thrEnd(); nontrivial(); finish();
}
// what one thread saw before it published is seen by those who observe it: any number of hops
template<int P, int O> static __attribute__((noinline)) void hop(Atomic<int> *in, Atomic<int> *out, int *d, int i) {
    if (in) { while (obs<O>(*in) != 1) PAUSE(); for (int k = 0; k < i; ++k) if (d[k] != k + 1) violate("stale-data", "hop %d: data of hop %d is %d", i, k, d[k]); }
    d[i] = i + 1; pub<P>(*out, 1);
}
SC1("A02", hops_O, A_VAR) {
    int n = 2 + (int)choose(S_CFG, 1, 3); Atomic<int> *x = new Atomic<int>[6]; int *d = new int[6]; memset(d, 0, 24);
    thrBegin(); tsoBegin();
    for (int i = 0; i <= n; ++i) spawn([&, i] { Atomic<int> *in = i ? x + i - 1 : NULL; switch (choose(S_WORK, i, 4)) { case 0: hop<P_STORE, O_LOAD>(in, x + i, d, i); break; case 1: hop<P_ADD, O_CONV>(in, x + i, d, i); break; case 2: hop<P_XCHG, O_ADD0>(in, x + i, d, i); break; case 3: hop<P_CAS, O_LOAD>(in, x + i, d, i); break; } });
    joinAll(); ev("hops", n, stepCount()); tsoEnd(); thrEnd(); nontrivial(); finish();
}
// fences between plain (volatile) accesses, alone and against atomic ones
template<int ORDER_REL> static __attribute__((noinline)) void fwriter(Sh *s, int rounds) { int *d = s->d; for (int r = 1; r <= rounds; ++r) { d[0] = r; d[1] = r * 3; lintel::atomic_thread_fence((lintel::memory_order)ORDER_REL); s->go = r; while (s->ack != r) PAUSE(); } }
template<int ORDER_ACQ> static __attribute__((noinline)) void freader(Sh *s, int rounds) { int *d = s->d; for (int r = 1; r <= rounds; ++r) { while (s->go != r) PAUSE(); lintel::atomic_thread_fence((lintel::memory_order)ORDER_ACQ); int a = d[0], b = d[1]; if (a != r || b != r * 3) violate("fence-ignored", "data %d, %d read after an acquiring fence, expected %d", a, b, r); s->ack = r; } }
SC1("A02", fence_mp_O, A_VAR) {
    using namespace lintel; static const W ws[] = {fwriter<memory_order_release>, fwriter<memory_order_acq_rel>, fwriter<memory_order_seq_cst>}, rs[] = {freader<memory_order_acquire>, freader<memory_order_consume>, freader<memory_order_acq_rel>, freader<memory_order_seq_cst>};
    int a = (int)choose(S_CFG, 1, 3), b = (int)choose(S_CFG, 2, 4), rounds = 1 + (int)choose(S_CFG, 3, 4); Sh *s = new Sh; memset(s->d, 0, sizeof s->d); s->ack = 0; s->go = 0;
    thrBegin(); tsoBegin(); spawn([&] { ws[a](s, rounds); }); spawn([&] { rs[b](s, rounds); });
    joinAll(); ev("fence-mp", a, b, stepCount()); tsoEnd(); thrEnd(); nontrivial(); finish();
}
// the same datum read before and after the observation: the second reading must be a new one
template<int O> static __attribute__((noinline)) int peek(Sh *s, int *k, int *old) {
    int *d = s->d; int b = d[0], v;
    if (O < O_N) v = obs<O>(s->x); else if (O == O_N) v = !s->x.isZero(); else { v = s->go; lintel::atomic_thread_fence(O == O_N + 1 ? lintel::memory_order_acquire : lintel::memory_order_consume); }
    int a = d[0]; *k = v; *old = b; return a;
}
typedef int (*PK)(Sh *, int *, int *);
static const PK peeks[] = {peek<0>, peek<1>, peek<2>, peek<3>, peek<4>, peek<5>, peek<6>, peek<7>, peek<8>, peek<9>, peek<10>};
SC1("A02", peek_O, A_VAR) {
    int o = (int)choose(S_CFG, 1, sizeof(peeks) / sizeof(peeks[0])), rounds = 1 + (int)choose(S_CFG, 3, 4), looks = 2 + (int)choose(S_CFG, 4, 10); Sh *s = new Sh; memset(s->d, 0, sizeof s->d); s->go = 0;
    thrBegin(); tsoBegin();
    spawn([&] { for (int r = 1; r <= rounds; ++r) { s->d[0] = r; if (o > O_N) { lintel::atomic_thread_fence(lintel::memory_order_release); s->go = r; } else s->x.store(r); } });
    spawn([&] { for (int i = 0; i < looks; ++i) { int k, b, a = peeks[o](s, &k, &b); if (a < k) violate("stale-data", "a thread that observed %d (operation %d) reads data %d afterwards (%d before)", k, o, a, b); } });
    joinAll(); ev("peek", o, stepCount()); tsoEnd(); thrEnd(); nontrivial(); finish();
}
struct Two { Atomic<int> a[3]; char pad[64]; volatile int v[3]; };
static inline __attribute__((always_inline)) void put(Two *t, int i, unsigned how) { switch (how) { case 0: t->v[i] = 1; lintel::atomic_thread_fence(lintel::memory_order_seq_cst); break; case 1: t->a[i].store(1); break; case 2: t->a[i] = 1; break; case 3: t->a[i].exchange(1); break; case 4: t->a[i].fetch_add(1); break; case 5: { int e = 0; t->a[i].compare_exchange_strong(&e, 1); break; } } }
SIM_SCENARIO_W(store_buffer_O, A_VAR) {
    int n = 2 + (int)choose(S_CFG, 3, 2); unsigned h[3]; unsigned same = (unsigned)choose(S_CFG, 7, 8); for (int i = 0; i < 3; ++i) h[i] = same < 6 ? same : (unsigned)choose(S_CFG, 4 + i, 6); Two *t = new Two; for (int i = 0; i < 3; ++i) t->v[i] = 0; static int r[3]; int delay[3];
    for (int i = 0; i < n; ++i) delay[i] = (int)choose(S_WORK, i, 6);
    thrBegin(); tsoBegin();
    for (int i = 0; i < n; ++i) spawn([&, i] { Two *q = t; int nx = (i + 1) % n; for (int k = 0; k < delay[i]; ++k) point(0); switch (h[i]) { case 0: put(q, i, 0); break; case 1: put(q, i, 1); break; case 2: put(q, i, 2); break; case 3: put(q, i, 3); break; case 4: put(q, i, 4); break; default: put(q, i, 5); }
        r[i] = h[nx] ? q->a[nx].load() : q->v[nx]; });
    joinAll(); int ones = 0; for (int i = 0; i < n; ++i) { ones += r[i]; ev("sb", h[i], r[i]); } ev("steps", stepCount()); tsoEnd(); thrEnd(); nontrivial();
    SIM_CHECK(ones > 0, "stores-both-missed", "%d threads stored to their own variable (ways %u,%u,%u) and loaded their neighbour's: every one of them missed the store", n, h[0], h[1], h[2]); finish();
}

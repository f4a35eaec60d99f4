#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "thr.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <map>
#include <vector>

namespace dsim {
enum { MAXT = 48 };
enum TState { T_NONE, T_RUN, T_BLOCKED, T_DONE };
enum WaitKind { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_GUARD, W_RW, W_SEM, W_BARRIER, W_SPIN, W_CUSTOM };
struct Th {
    TState st; int wk; const void *waddr; int64_t deadline; int reason; // reason: 0 woken, 1 timeout, 2 spurious
    int go; pthread_t pt; uint64_t steps; uint32_t nblock; uint64_t runlen; int prio; bool detached; bool joined; int64_t wseq;
    void *(*fn)(void *); void *arg; sigset_t mask; int dtor_iter; uintptr_t stk_hi; uint64_t mblocks, mbusy;
};
static Th T[MAXT];
static int g_n, g_cur;
static bool g_active;
static __thread int t_self = -1;
static __thread bool t_spawn = false; // the harness itself is creating a thread
static __thread int t_nop = 0;       // >0: no preemption
static uint64_t g_steps, g_budget = 400000; static int64_t g_now, g_off; static uint64_t g_seq; static int64_t g_mindl;
static int g_nrun;
uint64_t step_ns = 50;
int (*on_thread_create)() = NULL; void (*on_point)(int) = NULL; bool spurious_ok = false, time_faults = false; double time_jump_p = 0.02;
static bool g_tsan = true;
// strategy
static int g_strat; static double g_p, g_psync; static std::vector<uint64_t> g_pct; static uint64_t g_burst_lo, g_burst_hi; static int g_prionext;
static pthread_key_t g_key; uint64_t thr_fair = 4000; void (*on_switch)(int, int); void (*on_sync)(); bool noPreempt() { return t_nop > 0; } bool onOwnStack(uintptr_t x) { uintptr_t sp = (uintptr_t)__builtin_frame_address(0); return x >= sp && x < T[t_self].stk_hi; }
static unsigned g_nspur; static uint64_t g_preempts, g_switches;

#define REAL(name) ({ static decltype(&name) f_; if (!f_) f_ = (decltype(&name))dlsym(RTLD_NEXT, #name); f_; })
#define REALV(name, ver) ({ static decltype(&name) f_; if (!f_) f_ = (decltype(&name))dlvsym(RTLD_NEXT, #name, ver); if (!f_) f_ = (decltype(&name))dlsym(RTLD_NEXT, #name); f_; })

static void fwait(int *a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
static void fpost(int *a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }

bool simActive() { return g_active && t_self >= 0; }
int tid() { return t_self; }
int currentTid() { return g_cur; }
int threadCount() { return g_n; }
int liveThreads() { int k = 0; for (int i = 0; i < g_n; ++i) k += T[i].st == T_RUN || T[i].st == T_BLOCKED; return k; }
int64_t now() { return g_now; }
int64_t realtimeNow() { return g_now + g_off; }
void setRealtime(int64_t ns) { g_off = ns - g_now; }
uint64_t stepCount() { return g_steps; }
uint64_t mySteps() { return T[t_self].steps; }
uint64_t eventSeq() { return ++g_seq; }
void setBudget(uint64_t b) { g_budget = b; }
bool tsanPoints() { return g_tsan; }
void setTsanPoints(bool on) { g_tsan = on; }
NoPreempt::NoPreempt() : o(false) { ++t_nop; }
NoPreempt::~NoPreempt() { --t_nop; }
bool threadBlocked(int t) { return T[t].st == T_BLOCKED; }
int blockedKind(int t) { return T[t].st == T_BLOCKED ? T[t].wk : 0; }
int shadowMask(int t, void *s) { memcpy(s, &T[t].mask, sizeof(sigset_t)); return 0; }

static int runnableOthers(int *out) { int k = 0; for (int d = 1; d < g_n; ++d) { int i = (t_self + d) % g_n; if (T[i].st == T_RUN) out[k++] = i; } return k; }
static void makeRunnable(int i, int reason) {
    if (T[i].st != T_BLOCKED) return;
    T[i].st = T_RUN; T[i].reason = reason; T[i].deadline = -1; T[i].waddr = NULL; T[i].wk = W_NONE; ++g_nrun;
}
static void recomputeDl() { g_mindl = INT64_MAX; for (int i = 0; i < g_n; ++i) if (T[i].st == T_BLOCKED && T[i].deadline >= 0 && T[i].deadline < g_mindl) g_mindl = T[i].deadline; }
static void expire() { if (g_now < g_mindl) return; for (int i = 0; i < g_n; ++i) if (T[i].st == T_BLOCKED && T[i].deadline >= 0 && T[i].deadline <= g_now) makeRunnable(i, 1); recomputeDl(); }
static const char *wkName(int k) { static const char *n[] = {"none", "mutex", "cond", "join", "sleep", "guard", "rwlock", "sem", "barrier", "spin", "custom"}; return n[k]; }

static void switchTo(int nx, bool wait) {
    int me = t_self;
    if (nx == me) return;
    ++g_switches; schedHash(((uint64_t)me << 32) ^ (uint64_t)nx ^ (T[me].steps << 8));
    if (tracing()) note("  [step %llu t=%lldns] T%d(step %llu%s) -> T%d", (unsigned long long)g_steps, (long long)g_now, me, (unsigned long long)T[me].steps, T[me].st == T_BLOCKED ? " blocked" : T[me].st == T_DONE ? " done" : "", nx);
    g_cur = nx; T[nx].runlen = 0; if (on_switch) on_switch(me, nx);
    fpost(&T[nx].go);
    if (wait) fwait(&T[me].go);
}
static int pctBest(const int *c, int k) { int b = 0; for (int i = 1; i < k; ++i) if (T[c[i]].prio > T[c[b]].prio) b = i; return b; }
// called when the current thread cannot go on: choose who runs next
static void deadlock() {
    char b[900]; int n = 0; for (int i = 0; i < g_n; ++i) if (T[i].st == T_BLOCKED) { n += snprintf(b + n, sizeof(b) - n, " T%d:%s", i, wkName(T[i].wk)); if (n > 800) break; }
    violate("deadlock", "no thread can run; blocked:%s", b);
}
static int pickForced(uint32_t pos) {
    for (;;) {
        int c[MAXT]; int k = runnableOthers(c); bool selfRun = T[t_self].st == T_RUN;
        if (k == 0 && selfRun) return t_self;
        if (k > 0) {
            uint64_t v;
            if (generating()) { if (g_strat == 1) v = pctBest(c, k); else v = rawAt(S_SCHED, 64, (uint32_t)(g_steps)) % k; } else v = 0;
            v = decideAt(S_SCHED, t_self, pos, v); if ((int)v >= k) v %= k;
            return c[v];
        }
        recomputeDl();
        if (g_mindl == INT64_MAX) deadlock();
        if (g_mindl > g_now) g_now = g_mindl;
        expire();
        if (T[t_self].st == T_RUN) { int c2[MAXT]; if (runnableOthers(c2) == 0) return t_self; /* several woke at once */
            uint64_t k2 = runnableOthers(c2) + 1; uint64_t v = chooseAt(S_SCHED, t_self, pos, k2); return v == 0 ? t_self : c2[v - 1]; }
    }
}
static void budgetCheck() {
    if (g_steps > g_budget) { char b[900]; int n = 0; for (int i = 0; i < g_n && n < 800; ++i) n += snprintf(b + n, sizeof(b) - n, " T%d:%s", i, T[i].st == T_BLOCKED ? wkName(T[i].wk) : T[i].st == T_RUN ? "running" : "done"); violate("livelock", "no end within %llu steps; threads:%s", (unsigned long long)g_budget, b); }
}
// block the current thread; returns reason (0 woken, 1 timeout, 2 spurious)
static int block(int wk, const void *addr, int64_t deadline) {
    Th &me = T[t_self]; ++g_steps; ++me.steps; budgetCheck();
    me.st = T_BLOCKED; me.wk = wk; me.waddr = addr; me.deadline = deadline; me.reason = 0; me.wseq = ++g_seq; --g_nrun;
    if (deadline >= 0 && deadline < g_mindl) g_mindl = deadline;
    expire();
    if (on_point) { ++t_nop; on_point(2); --t_nop; }
    if (me.st == T_RUN && g_nrun == 1) { me.runlen = 0; return me.reason; }
    int nx = pickForced(me.steps);
    switchTo(nx, true);
    return me.reason;
}
static int wakeAddr(const void *addr, int kind, int max) { int k = 0; for (int d = 0; d < g_n && k < max; ++d) if (T[d].st == T_BLOCKED && T[d].wk == kind && T[d].waddr == addr) { makeRunnable(d, 0); ++k; } return k; }
void point(int kind) {
    if (!simActive() || t_nop) return;
    if (kind == 1 && on_sync) on_sync(); // a call into the system: a full barrier
    Th &me = T[t_self]; ++g_steps; ++me.steps; ++me.runlen; g_now += step_ns; 
    if (g_now >= g_mindl) expire();
    if (on_point) { ++t_nop; on_point(kind); --t_nop; }
    if (g_steps > g_budget) budgetCheck();
    uint32_t pos = (uint32_t)me.steps;
    if (kind >= 1) {
        if (time_faults && g_mindl != INT64_MAX && chanceAt(S_TIME, t_self, pos, time_jump_p)) { if (g_mindl > g_now) { g_now = g_mindl; fault("time-advance-to-deadline"); } expire(); }
        if (spurious_ok && g_nspur < 6) {
            for (int i = 0; i < g_n; ++i) if (T[i].st == T_BLOCKED && T[i].wk == W_COND) {
                if (chanceAt(S_FAULT, 40 + t_self % 20, pos, 0.01)) { makeRunnable(i, 2); ++g_nspur; fault("spurious-wakeup"); }
                break;
            }
        }
    }
    if (g_nrun <= 1) return;
    uint64_t v = 0; int c[MAXT]; int k = -1;
    if (generating()) {
        bool pre = false;
        if (g_strat == 1) {
            for (size_t i = 0; i < g_pct.size(); ++i) if (g_pct[i] == g_steps) me.prio = --g_prionext;
            k = runnableOthers(c); int b = pctBest(c, k); if (T[c[b]].prio > me.prio) v = b + 1;
        } else {
            double p = kind >= 1 ? g_psync : g_p;
            if (g_strat == 2) p = (g_steps >= g_burst_lo && g_steps < g_burst_hi) ? 0.5 : 0.002;
            pre = (rawAt(S_SCHED, 65 + t_self % 20, pos) >> 11) * (1.0 / 9007199254740992.0) < p;
            if (pre) { k = runnableOthers(c); v = 1 + rawAt(S_SCHED, 90, (uint32_t)g_steps) % k; }
        }
    }
    v = decideAt(S_SCHED, t_self, pos, v);
    if (v == 0 && me.runlen > thr_fair) { v = 1; probe("fairness-switch"); }
    if (v == 0) return;
    if (k < 0) k = runnableOthers(c);
    if (k == 0) return;
    ++g_preempts;
    switchTo(c[(v - 1) % k], true);
}
void yieldForced() {
    if (!simActive() || t_nop) return;
    Th &me = T[t_self]; ++g_steps; ++me.steps; g_now += step_ns; budgetCheck(); if (g_now >= g_mindl) expire();
    if (on_point) { ++t_nop; on_point(1); --t_nop; }
    if (g_nrun <= 1) { // nobody else can run: let time pass
        recomputeDl(); if (g_mindl != INT64_MAX && me.runlen++ > 50) { if (g_mindl > g_now) g_now = g_mindl; expire(); } return; }
    if (g_strat == 1 && generating()) me.prio = --g_prionext;
    switchTo(pickForced((uint32_t)me.steps), true);
}
void sleepNs(int64_t ns) { if (!simActive()) return; point(1); block(W_SLEEP, NULL, g_now + (ns < 0 ? 0 : ns)); }

static void keyDtor(void *p) {
    int me = (int)(intptr_t)p - 1;
    if (!g_active) return;
    if (++T[me].dtor_iter < PTHREAD_DESTRUCTOR_ITERATIONS) { pthread_setspecific(g_key, p); return; }
    // really finished: wake joiners, pass the baton on and leave
    point(1);
    T[me].st = T_DONE; --g_nrun; ev("thread-end", me);
    wakeAddr(&T[me], W_JOIN, MAXT);
    int nx; { Th &t = T[me]; ++g_steps; ++t.steps; nx = pickForced((uint32_t)t.steps); }
    t_self = -1; 
    T[nx].runlen = 0; g_cur = nx; schedHash(((uint64_t)me << 40) ^ nx); if (on_switch) on_switch(me, nx);
    fpost(&T[nx].go);
}
static void *trampoline(void *a) {
    int me = (int)(intptr_t)a; fwait(&T[me].go); t_self = me; T[me].stk_hi = (uintptr_t)__builtin_frame_address(0) + 4096;
    pthread_setspecific(g_key, (void *)(intptr_t)(me + 1));
    pthread_sigmask(SIG_BLOCK, NULL, &T[me].mask);
    return T[me].fn(T[me].arg);
}
void thrBegin() {
    g_n = 1; g_cur = 0; t_self = 0; memset(T, 0, sizeof T); T[0].st = T_RUN; T[0].deadline = -1; T[0].pt = pthread_self(); g_nrun = 1; g_mindl = INT64_MAX;
    T[0].stk_hi = (uintptr_t)__builtin_frame_address(0) + 4096;
    sigprocmask(SIG_BLOCK, NULL, &T[0].mask);
    g_now = 1000000000ll; g_off = 1600000000ll * 1000000000ll;
    REAL(pthread_key_create)(&g_key, keyDtor);
    // per-run strategy (swarm)
    static const double ps[] = {0.02, 0.1, 0.3, 0.005, 0.05};
    g_strat = 0; g_prionext = 0;
    if (generating()) {
        uint64_t h = rawAt(S_SCHED, 95, 0); g_strat = h % 10 < 5 ? 0 : h % 10 < 8 ? 1 : 2; g_p = ps[(h >> 8) % 5]; g_psync = (h >> 16) % 4 == 0 ? g_p : 0.35; if ((h >> 24) % 6 == 0) g_p = 0;
        uint64_t span = 64ull << ((h >> 32) % 9); int d = 1 + (h >> 40) % 6;
        for (int i = 0; i < d; ++i) g_pct.push_back(1 + rawAt(S_SCHED, 95, 1 + i) % span);
        g_burst_lo = rawAt(S_SCHED, 95, 50) % span; g_burst_hi = g_burst_lo + 10 + rawAt(S_SCHED, 95, 51) % 200;
        T[0].prio = 1000 + (int)(rawAt(S_SCHED, 94, 0) % 1000); 
    }
    static const uint64_t sn[] = {50, 1, 1000, 20000, 300};
    step_ns = sn[choose(S_CFG, 90, 5)];
    spurious_ok = faultsEnabled(); time_faults = faultsEnabled();
    g_active = true;
}
void thrEnd() {
    for (int i = 1; i < g_n; ++i) if (T[i].st != T_DONE && T[i].st != T_NONE) { /* detached leftovers are legal */ }
    steps(g_steps); simTime((uint64_t)(g_now - 1000000000ll)); 
    probe("preemptions", g_preempts); probe("switches", g_switches);
    g_active = false;
}
} // namespace dsim
using namespace dsim;

// ---------------------------------------------------------------- harness threads
namespace dsim {
struct HT { pthread_t t; std::function<void()> fn; bool joined; };
static std::vector<HT *> *g_hts;
static std::vector<HT *> &hts() { if (!g_hts) g_hts = new std::vector<HT *>; return *g_hts; }
static void *htRun(void *a) {
    HT *h = (HT *)a;
    try { h->fn(); } catch (std::exception &e) { violate("unexpected-exception", "%s", e.what()); }
    return NULL;
}
int spawn(const std::function<void()> &fn) {
    HT *h = new HT; h->fn = fn; h->joined = false; t_spawn = true;
    if (pthread_create(&h->t, NULL, htRun, h)) simError("harness pthread_create failed");
    hts().push_back(h); return (int)hts().size() - 1;
}
void joinT(int i) { HT *h = hts()[i]; if (!h->joined) { pthread_join(h->t, NULL); h->joined = true; } }
void joinAll() { for (size_t i = 0; i < hts().size(); ++i) joinT((int)i); }
}

// ---------------------------------------------------------------- interposed pthread calls
// small fixed tables: the simulator itself allocates nothing during a run
struct Own { const void *m; int t; };
static Own g_own[512]; static int g_nown; static uint64_t g_lockepoch, g_released[MAXT];
static int ownerOf(const void *m) { for (int i = 0; i < g_nown; ++i) if (g_own[i].m == m) return g_own[i].t; return -1; }
static void setOwner(const void *m, int t) { ++g_lockepoch; for (int i = 0; i < g_nown; ++i) if (g_own[i].m == m) { g_own[i].t = t; return; } if (g_nown >= 512) simError("too many held mutexes"); g_own[g_nown].m = m; g_own[g_nown++].t = t; }
static void clearOwner(const void *m) { ++g_lockepoch; if (t_self >= 0) ++g_released[t_self]; for (int i = 0; i < g_nown; ++i) if (g_own[i].m == m) { g_own[i] = g_own[--g_nown]; return; } }
namespace dsim {
uint64_t lockEpoch() { return g_lockepoch; }
uint64_t mutexReleases(int t) { return g_released[t]; }
int mutexOwner(const void *m) { return ownerOf(m); }
int ownerWithin(const void *lo, size_t n) { for (int i = 0; i < g_nown; ++i) if ((const char *)g_own[i].m >= (const char *)lo && (const char *)g_own[i].m < (const char *)lo + n) return g_own[i].t; return -1; }
uint64_t mutexBlocks(int t) { return T[t].mblocks; }
uint64_t mutexBusy(int t) { return T[t].mbusy; }
}
struct CClk { const void *c; clockid_t k; };
static CClk g_cclk[256]; static int g_ncclk;
static clockid_t condClock(const void *c) { for (int i = 0; i < g_ncclk; ++i) if (g_cclk[i].c == c) return g_cclk[i].k; return CLOCK_REALTIME; }
static void condForget(const void *c) { for (int i = 0; i < g_ncclk; ++i) if (g_cclk[i].c == c) { g_cclk[i] = g_cclk[--g_ncclk]; return; } }
static void condRemember(const void *c, clockid_t k) { condForget(c); if (k == CLOCK_REALTIME) return; if (g_ncclk < 256) { g_cclk[g_ncclk].c = c; g_cclk[g_ncclk++].k = k; } }
static int64_t absToMono(clockid_t c, const struct timespec *ts) { int64_t t = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec; if (c == CLOCK_REALTIME) t -= g_off; return t < 0 ? 0 : t; }
static bool badTs(const struct timespec *ts) { return ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000; }

namespace dsim { bool (*time_hook)(int clk, int64_t *ns); bool (*sleep_hook)(int64_t ns); }
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    auto real = REAL(pthread_create);
    if (!simActive()) return real(t, attr, fn, arg);
    bool own = t_spawn; t_spawn = false;
    point(1);
    if (on_thread_create && !own) { ++t_nop; int e = on_thread_create(); --t_nop; if (e) { fault("pthread_create-refused"); ev("create-refused", t_self, e); return e; } }
    if (g_n >= MAXT) simError("too many simulated threads");
    int id = g_n; Th &n = T[id]; memset(&n, 0, sizeof n); n.fn = fn; n.arg = arg; n.deadline = -1;
    sigprocmask(SIG_BLOCK, NULL, &n.mask);
    n.prio = generating() ? 1000 + (int)(rawAt(S_SCHED, 94, id) % 1000) : 0;
    int ds = 0; if (attr) pthread_attr_getdetachstate(attr, &ds); n.detached = ds == PTHREAD_CREATE_DETACHED;
    n.st = T_RUN; 
    int r = real(&n.pt, attr, trampoline, (void *)(intptr_t)id);
    if (r) { n.st = T_NONE; return r; }
    ++g_n; ++g_nrun; *t = n.pt; ev("create", t_self, id);
    point(1);
    return 0;
}
int pthread_join(pthread_t t, void **ret) {
    auto real = REAL(pthread_join);
    if (!simActive()) return real(t, ret);
    point(1);
    int id = -1; for (int i = g_n - 1; i >= 0; --i) if (T[i].pt == t && T[i].st != T_NONE && !T[i].joined) { id = i; break; }
    if (id < 0) violate("join-invalid", "pthread_join of a thread that does not exist or was joined before");
    if (T[id].detached) return EINVAL;
    if (id == t_self) return EDEADLK;
    while (T[id].st != T_DONE) block(W_JOIN, &T[id], -1);
    T[id].joined = true; ev("join", t_self, id);
    return real(t, ret);
}
int pthread_detach(pthread_t t) { if (simActive()) { for (int i = 0; i < g_n; ++i) if (T[i].pt == t && !T[i].joined) T[i].detached = true; } return REAL(pthread_detach)(t); }

int pthread_mutex_lock(pthread_mutex_t *m) {
    auto real = REAL(pthread_mutex_lock); auto tr = REAL(pthread_mutex_trylock);
    if (!simActive() || t_nop) return real(m);
    point(1);
    for (;;) {
        int r = tr(m);
        if (r != EBUSY) { if (r == 0) setOwner(m, t_self); return r; }
        if (ownerOf(m) == t_self) { // relock by the owner
            int kind = m->__data.__kind & 3;
            if (kind == PTHREAD_MUTEX_ERRORCHECK) return real(m);
            violate("self-deadlock", "thread relocks a mutex it holds");
        }
        probe("mutex-blocked"); ++T[t_self].mbusy; ++T[t_self].mblocks;
        block(W_MUTEX, m, -1);
    }
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    auto tr = REAL(pthread_mutex_trylock);
    if (!simActive() || t_nop) return tr(m);
    point(1); int r = tr(m); if (r == 0) setOwner(m, t_self); else if (r == EBUSY) ++T[t_self].mbusy; return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    auto real = REAL(pthread_mutex_unlock);
    if (!simActive() || t_nop) return real(m);
    point(1);
    if (ownerOf(m) != t_self) {
        int kind = m->__data.__kind & 3;
        if (kind == PTHREAD_MUTEX_ERRORCHECK || kind == PTHREAD_MUTEX_RECURSIVE) { int r = real(m); if (r) return r; wakeAddr(m, W_MUTEX, MAXT); return 0; }
        violate("unlock-not-owner", "thread unlocks a mutex it does not hold");
    }
    int r = real(m); if (r) return r;
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && m->__data.__owner != 0) return 0;
    clearOwner(m);
    wakeAddr(m, W_MUTEX, MAXT);
    point(1);
    return 0;
}
static int mutexTimed(pthread_mutex_t *m, clockid_t clk, const struct timespec *ts) {
    auto tr = REAL(pthread_mutex_trylock);
    point(1);
    for (;;) {
        int r = tr(m); if (r != EBUSY) { if (r == 0) setOwner(m, t_self); return r; }
        if (badTs(ts)) return EINVAL;
        if (ownerOf(m) == t_self && (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        int64_t dl = absToMono(clk, ts);
        if (dl <= g_now) { probe("timedlock-timeout"); return ETIMEDOUT; }
        block(W_MUTEX, m, dl);
    }
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { if (!simActive()) return REAL(pthread_mutex_timedlock)(m, ts); return mutexTimed(m, CLOCK_REALTIME, ts); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) { if (!simActive()) return REAL(pthread_mutex_clocklock)(m, c, ts); return mutexTimed(m, c, ts); }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (simActive()) { clearOwner(m); } return REAL(pthread_mutex_destroy)(m); }

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
    clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k); 
    condRemember(c, k);
    return REALV(pthread_cond_init, "GLIBC_2.3.2")(c, a);
}
int pthread_cond_destroy(pthread_cond_t *c) {
    if (!simActive()) return REALV(pthread_cond_destroy, "GLIBC_2.3.2")(c);
    condForget(c); 
    for (int i = 0; i < g_n; ++i) if (T[i].st == T_BLOCKED && T[i].wk == W_COND && T[i].waddr == c) violate("cond-destroyed-in-use", "condition destroyed while T%d waits on it", i);
    return 0;
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts) {
    if (ts && badTs(ts)) return EINVAL;
    point(1);
    if (ownerOf(m) != t_self) violate("wait-without-mutex", "condition wait entered without holding the mutex");
    int64_t dl = ts ? absToMono(clk, ts) : -1;
    // release + sleep is one atomic step
    int r = REAL(pthread_mutex_unlock)(m); if (r) return r;
    clearOwner(m); wakeAddr(m, W_MUTEX, MAXT);
    int reason;
    if (ts && dl <= g_now) reason = 1, point(1);
    else reason = block(W_COND, c, dl);
    int e = pthread_mutex_lock(m); if (e) return e;
    if (reason == 1) probe("cond-timeout");
    return reason == 1 ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!simActive()) return REALV(pthread_cond_wait, "GLIBC_2.3.2")(c, m); return condWait(c, m, CLOCK_REALTIME, NULL); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!simActive()) return REALV(pthread_cond_timedwait, "GLIBC_2.3.2")(c, m, ts);
    return condWait(c, m, condClock(c), ts);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { if (!simActive()) return REAL(pthread_cond_clockwait)(c, m, k, ts); return condWait(c, m, k, ts); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!simActive()) return REALV(pthread_cond_signal, "GLIBC_2.3.2")(c);
    point(1);
    int w[MAXT], k = 0; for (int i = 0; i < g_n; ++i) if (T[i].st == T_BLOCKED && T[i].wk == W_COND && T[i].waddr == c) w[k++] = i;
    for (int i = 0; i < k; ++i) for (int j = i + 1; j < k; ++j) if (T[w[j]].wseq < T[w[i]].wseq) { int x = w[i]; w[i] = w[j]; w[j] = x; }
    if (k) { int s = w[chooseAt(S_WAKE, t_self, (uint32_t)T[t_self].steps, k)]; makeRunnable(s, 0); ev("signal", t_self, s); } else { ev("signal", t_self, -1); probe("signal-no-waiter"); }
    recomputeDl(); point(1);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!simActive()) return REALV(pthread_cond_broadcast, "GLIBC_2.3.2")(c);
    point(1); int k = wakeAddr(c, W_COND, MAXT); ev("broadcast", t_self, k); recomputeDl(); point(1); return 0;
}

#define TRYLOOP(kind, addr, expr, dl) for (;;) { int r_ = (expr); if (r_ != EBUSY && r_ != EAGAIN) return r_; if ((dl) >= 0 && (dl) <= g_now) return ETIMEDOUT; block(kind, addr, dl); }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!simActive()) return REAL(pthread_rwlock_rdlock)(l); point(1); TRYLOOP(W_RW, l, REAL(pthread_rwlock_tryrdlock)(l), -1) }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!simActive()) return REAL(pthread_rwlock_wrlock)(l); point(1); TRYLOOP(W_RW, l, REAL(pthread_rwlock_trywrlock)(l), -1) }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (simActive()) point(1); return REAL(pthread_rwlock_tryrdlock)(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (simActive()) point(1); return REAL(pthread_rwlock_trywrlock)(l); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const struct timespec *ts) { if (!simActive()) return REAL(pthread_rwlock_timedrdlock)(l, ts); point(1); int64_t dl = absToMono(CLOCK_REALTIME, ts); TRYLOOP(W_RW, l, REAL(pthread_rwlock_tryrdlock)(l), dl) }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const struct timespec *ts) { if (!simActive()) return REAL(pthread_rwlock_timedwrlock)(l, ts); point(1); int64_t dl = absToMono(CLOCK_REALTIME, ts); TRYLOOP(W_RW, l, REAL(pthread_rwlock_trywrlock)(l), dl) }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!simActive()) return REAL(pthread_rwlock_unlock)(l); point(1); int r = REAL(pthread_rwlock_unlock)(l); wakeAddr(l, W_RW, MAXT); point(1); return r; }
int pthread_spin_lock(pthread_spinlock_t *l) { if (!simActive()) return REAL(pthread_spin_lock)(l); point(1); TRYLOOP(W_SPIN, (const void *)l, REAL(pthread_spin_trylock)(l), -1) }
int pthread_spin_trylock(pthread_spinlock_t *l) { if (simActive()) point(1); return REAL(pthread_spin_trylock)(l); }
int pthread_spin_unlock(pthread_spinlock_t *l) { if (!simActive()) return REAL(pthread_spin_unlock)(l); point(1); int r = REAL(pthread_spin_unlock)(l); wakeAddr((const void *)l, W_SPIN, MAXT); point(1); return r; }
int sem_wait(sem_t *s) { if (!simActive()) return REALV(sem_wait, "GLIBC_2.2.5")(s); point(1); while (REALV(sem_trywait, "GLIBC_2.2.5")(s)) block(W_SEM, s, -1); return 0; }
int sem_trywait(sem_t *s) { if (simActive()) point(1); return REALV(sem_trywait, "GLIBC_2.2.5")(s); }
int sem_post(sem_t *s) { if (!simActive()) return REALV(sem_post, "GLIBC_2.2.5")(s); point(1); int r = REALV(sem_post, "GLIBC_2.2.5")(s); wakeAddr(s, W_SEM, MAXT); point(1); return r; }
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!simActive()) return REAL(pthread_once)(o, fn);
    point(1); volatile int *p = (volatile int *)o;
    for (;;) { if (*p == 2) return 0; if (*p == 0) { *p = 1; try { fn(); } catch (...) { *p = 0; wakeAddr(o, W_GUARD, MAXT); throw; } *p = 2; wakeAddr(o, W_GUARD, MAXT); point(1); return 0; } block(W_GUARD, o, -1); }
}
// C++ function-local static initialisation
int __cxa_guard_acquire(long long *g) {
    volatile char *p = (volatile char *)g;
    if (!simActive()) { if (p[0]) return 0; p[1] = 1; return 1; }
    point(1);
    for (;;) { if (p[0]) return 0; if (!p[1]) { p[1] = 1; return 1; } probe("static-init-raced"); block(W_GUARD, g, -1); }
}
void __cxa_guard_release(long long *g) { volatile char *p = (volatile char *)g; p[0] = 1; p[1] = 0; if (simActive()) { wakeAddr(g, W_GUARD, MAXT); point(1); } }
void __cxa_guard_abort(long long *g) { volatile char *p = (volatile char *)g; p[1] = 0; if (simActive()) { wakeAddr(g, W_GUARD, MAXT); point(1); } }

// ---------------------------------------------------------------- signals masks (real, mirrored)
static int maskCall(int how, const sigset_t *set, sigset_t *old) {
    auto real = REAL(pthread_sigmask); int r = real(how, set, old);
    if (g_active && t_self >= 0) { sigset_t c; real(SIG_BLOCK, NULL, &c); T[t_self].mask = c; if (set && simActive()) point(1); }
    return r;
}
int pthread_sigmask(int how, const sigset_t *set, sigset_t *old) { if (simActive() && set) point(1); return maskCall(how, set, old); }
int sigprocmask(int how, const sigset_t *set, sigset_t *old) { int r = maskCall(how, set, old); if (r) { errno = r; return -1; } return 0; }

// ---------------------------------------------------------------- time and yielding
int clock_gettime(clockid_t c, struct timespec *ts) {
    int64_t hk; if (time_hook && time_hook(c, &hk)) { ts->tv_sec = hk / 1000000000; ts->tv_nsec = hk % 1000000000; return 0; }
    if (!simActive()) return (int)syscall(SYS_clock_gettime, c, ts);
    point(1); int64_t t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? realtimeNow() : g_now; ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) __THROW;
int gettimeofday(struct timeval *tv, void *tz) __THROW {
    int64_t hk; if (time_hook && time_hook(CLOCK_REALTIME, &hk)) { tv->tv_sec = hk / 1000000000; tv->tv_usec = hk % 1000000000 / 1000; return 0; }
    if (!simActive()) return (int)syscall(SYS_gettimeofday, tv, tz);
    point(1); int64_t t = realtimeNow() / 1000; tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0;
}
time_t time(time_t *o) __THROW;
time_t time(time_t *o) __THROW { time_t t; int64_t hk; if (time_hook && time_hook(CLOCK_REALTIME, &hk)) { t = hk / 1000000000; if (o) *o = t; return t; } if (!simActive()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; } else { point(1); t = realtimeNow() / 1000000000; } if (o) *o = t; return t; }
static int simSleep(int64_t ns, struct timespec *rem) { (void)rem; sleepNs(ns); return 0; }
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) { if (tv && !r && !w && !e) { int64_t ns = (int64_t)tv->tv_sec * 1000000000ll + (int64_t)tv->tv_usec * 1000; if (sleep_hook && sleep_hook(ns)) return 0; if (simActive()) { simSleep(ns, NULL); return 0; } } return (int)syscall(SYS_select, n, r, w, e, tv); }
int nanosleep(const struct timespec *req, struct timespec *rem) { if (sleep_hook && sleep_hook((int64_t)req->tv_sec * 1000000000ll + req->tv_nsec)) return 0; if (!simActive()) return (int)syscall(SYS_nanosleep, req, rem); return simSleep((int64_t)req->tv_sec * 1000000000ll + req->tv_nsec, rem); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *req, struct timespec *rem) { if (!simActive()) return (int)-syscall(SYS_clock_nanosleep, c, fl, req, rem); int64_t t = (int64_t)req->tv_sec * 1000000000ll + req->tv_nsec; if (fl & TIMER_ABSTIME) t -= c == CLOCK_REALTIME ? realtimeNow() : g_now; return simSleep(t, rem); }
int usleep(useconds_t u) { if (sleep_hook && sleep_hook((int64_t)u * 1000)) return 0; if (!simActive()) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, NULL); } return simSleep((int64_t)u * 1000, NULL); }
unsigned sleep(unsigned s) { if (!simActive()) { struct timespec t = {s, 0}; syscall(SYS_nanosleep, &t, NULL); return 0; } simSleep((int64_t)s * 1000000000ll, NULL); return 0; }
int sched_yield(void) __THROW;
int sched_yield(void) __THROW { if (!simActive()) return (int)syscall(SYS_sched_yield); yieldForced(); return 0; }

// ---------------------------------------------------------------- our ThreadSanitizer runtime: each access is a schedule point
static inline void acc(const volatile void *a, int k) {
    if (!g_active || t_self < 0 || t_nop || !g_tsan) return;
    uintptr_t x = (uintptr_t)a, sp = (uintptr_t)__builtin_frame_address(0); if (x >= sp && x < T[t_self].stk_hi) return; // own stack
    point(k);
}
void __tsan_init() {}
void __tsan_func_entry(void *) {} 
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *a) { acc(a, 0); } void __tsan_write##n(void *a) { acc(a, 0); } void __tsan_unaligned_read##n(void *a) { acc(a, 0); } void __tsan_unaligned_write##n(void *a) { acc(a, 0); } void __tsan_volatile_read##n(void *a) { acc(a, 0); } void __tsan_volatile_write##n(void *a) { acc(a, 0); } void __tsan_read_write##n(void *a) { acc(a, 0); } void __tsan_unaligned_read_write##n(void *a) { acc(a, 0); } void __tsan_unaligned_volatile_read##n(void *a) { acc(a, 0); } void __tsan_unaligned_volatile_write##n(void *a) { acc(a, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **a, void *) { acc(a, 0); }
void __tsan_vptr_read(void **a) { acc(a, 0); }
void __tsan_read_range(void *a, unsigned long) { acc(a, 0); }
void __tsan_write_range(void *a, unsigned long) { acc(a, 0); }
#define ATOM(n, T_) \
 T_ __tsan_atomic##n##_load(const volatile T_ *a, int) { acc(a, 1); return __atomic_load_n(a, 5); } \
 void __tsan_atomic##n##_store(volatile T_ *a, T_ v, int) { acc(a, 1); __atomic_store_n(a, v, 5); } \
 T_ __tsan_atomic##n##_exchange(volatile T_ *a, T_ v, int) { acc(a, 1); return __atomic_exchange_n(a, v, 5); } \
 T_ __tsan_atomic##n##_fetch_add(volatile T_ *a, T_ v, int) { acc(a, 1); return __atomic_fetch_add(a, v, 5); } \
 T_ __tsan_atomic##n##_fetch_sub(volatile T_ *a, T_ v, int) { acc(a, 1); return __atomic_fetch_sub(a, v, 5); } \
 T_ __tsan_atomic##n##_fetch_and(volatile T_ *a, T_ v, int) { acc(a, 1); return __atomic_fetch_and(a, v, 5); } \
 T_ __tsan_atomic##n##_fetch_or(volatile T_ *a, T_ v, int) { acc(a, 1); return __atomic_fetch_or(a, v, 5); } \
 T_ __tsan_atomic##n##_fetch_xor(volatile T_ *a, T_ v, int) { acc(a, 1); return __atomic_fetch_xor(a, v, 5); } \
 T_ __tsan_atomic##n##_fetch_nand(volatile T_ *a, T_ v, int) { acc(a, 1); return __atomic_fetch_nand(a, v, 5); } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T_ *a, T_ *e, T_ v, int, int) { acc(a, 1); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile T_ *a, T_ *e, T_ v, int, int) { acc(a, 1); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
 T_ __tsan_atomic##n##_compare_exchange_val(volatile T_ *a, T_ e, T_ v, int, int) { acc(a, 1); __atomic_compare_exchange_n(a, &e, v, false, 5, 5); return e; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) { if (simActive()) point(1); }
void __tsan_atomic_signal_fence(int) {}
}

#ifndef A_VAR
#define A_VAR 2
#endif
#include "a.hpp"
#define SC2(p, n, v) SIM_SCENARIO(p, n##v)
#define SC1(p, n, v) SC2(p, n, v)
template<class T> static void mixed() {
    int nv = 1 + (int)choose(S_CFG, 1, 2), nt = 2 + (int)choose(S_CFG, 2, 3), per = 1 + (int)choose(S_CFG, 3, nt == 2 ? 7 : 4);
    uint64_t mask = choose(S_CFG, 4, 3) == 0 ? ~0ull : (choose(S_CFG, 7, 1u << 17) | choose(S_CFG, 8, 1u << 17) << 17 | 1u << K_FADD | 1ull << K_UFADD);
    std::vector<T> init; Cell<T> c[2]; T *plain = new T[4]; 
    for (int i = 0; i < nv; ++i) { T v = pick<T>(80); init.push_back(v); c[i].at = new lintel::Atomic<T>(v); c[i].pl = plain + i; plain[i] = v; SIM_CHECK(c[i].at->load() == v, "constructor", "an atomic starts with another value than given"); }
    // each variable is used through the class or through the unsafe helpers
    unsigned un = (unsigned)choose(S_CFG, 5, 4);
    { lintel::Atomic<T> z; SIM_CHECK(z.load() == 0 && z.isZero(), "constructor", "a default atomic is not zero"); }
    thrBegin(); tsoBegin(); g_nop = 0;
    for (int t = 0; t < nt; ++t) spawn([&, t] {
        for (int i = 0; i < per; ++i) {
            unsigned s = tid(); int var = (int)choose(S_WORK, s, nv); bool u = un & (1 << var);
            int kind = u ? K_ULOAD + (int)choose(S_WORK, s, K_N - K_ULOAD) : (int)choose(S_WORK, s, K_ULOAD);
            if (!(mask >> kind & 1)) kind = u ? K_UFADD : K_FADD;
            T a = pick<T>(s), b = pick<T>(s); if ((kind == K_CAS || kind == K_UCAS) && choose(S_DATA, s, 2)) a = init[var];
            doOp<T>(kind, c[var], var, a, b);
        } });
    joinAll(); tsoEnd(); thrEnd();
    for (int i = 0; i < nv; ++i) doOp<T>(un & (1 << i) ? K_ULOAD : K_LOAD, c[i], i, 0, 0);
    checkHistory<T>(init); finish();
}
template<class T> static void sums() {
    int nt = 2 + (int)choose(S_CFG, 2, 5), per = 2 + (int)choose(S_CFG, 3, 24); bool un = choose(S_CFG, 5, 3) == 1; bool ones = choose(S_CFG, 6, 2) == 0;
    T init = pick<T>(80); lintel::Atomic<T> *x = new lintel::Atomic<T>(init); T *p = new T(init); std::vector<std::vector<std::pair<T, T> > > got(nt); for (auto &g : got) g.reserve(per);
    thrBegin(); tsoBegin();
    for (int t = 0; t < nt; ++t) spawn([&, t] {
        for (int i = 0; i < per; ++i) {
            unsigned s = tid(); T d = ones ? 1 : pick<T>(s), before = 0;
            if (un) { if (choose(S_WORK, s, 2)) before = lintel::unsafe::atomic_fetch_add(p, d); else { before = lintel::unsafe::atomic_fetch_sub(p, d); d = (T)-d; } }
            else switch (choose(S_WORK, s, ones ? 6 : 5)) {
                case 0: before = x->fetch_add(d); break; case 1: before = (T)(x->addThenFetch(d) - d); break; case 2: before = (T)((*x += d) - d); break;
                case 3: if (ones) before = (T)(x->incThenFetch() - 1); else { before = x->fetch_sub(d); d = (T)-d; } break;
                case 4: if (ones) before = (*x)++; else { before = (T)((*x -= d) + d); d = (T)-d; } break;
                case 5: before = (T)(++*x - 1); break; }
            NoPreempt np; got[t].push_back(std::make_pair(before, d));
        } });
    joinAll(); tsoEnd(); thrEnd(); nontrivial();
    T sum = init; std::map<T, int> deg; // each update goes from "before" to "after": together they are one walk from the first value to the last
    for (auto &g : got) for (auto &e : g) { ev("upd", (int64_t)e.first, (int64_t)e.second); sum = (T)(sum + e.second); ++deg[e.first]; --deg[(T)(e.first + e.second)]; stateHash((uint64_t)e.first); }
    T fin = un ? lintel::unsafe::atomic_load(p) : x->load();
    SIM_CHECK(fin == sum, "lost-update", "%d threads, %d updates each on a %d-byte integer: final value %lld, sum %lld", nt, per, (int)sizeof(T), (long long)fin, (long long)sum);
    --deg[init]; ++deg[fin];
    for (auto &d : deg) SIM_CHECK(d.second == 0, "wrong-return", "the returned values are no chain of updates: value %lld", (long long)d.first);
    finish();
}
// every thread owns some bits of one integer: whatever the others do to theirs, its own hold what it put there
template<class T> static void lanes() {
    typedef typename std::make_unsigned<T>::type U; int nt = 2 + (int)choose(S_CFG, 2, 3); int w = (int)sizeof(T) * 8 / nt; if (w > 16) w = 16; int per = 2 + (int)choose(S_CFG, 3, 20); bool un = choose(S_CFG, 5, 3) == 1; U lane = (U)((((uint64_t)1) << w) - 1);
    lintel::Atomic<T> *x = new lintel::Atomic<T>(0); T *p = new T(0); U mine[5] = {0};
    thrBegin(); tsoBegin();
    for (int t = 0; t < nt; ++t) spawn([&, t] {
        unsigned sh = t * w; U m = (U)(lane << sh); int slow = (int)choose(S_WORK, tid(), 3); int n = slow == 1 ? per / 2 + 1 : per;
        for (int i = 0; i < n; ++i) {
            unsigned s = tid(); U bits = (U)((U)(choose(S_DATA, s, (uint64_t)lane + 1)) << sh), was = (U)mine[t], now; int k = (int)choose(S_WORK, s, t == nt - 1 ? 8 : 6); T r = 0; bool before = true;
            switch (k) {
            case 0: now = was | bits; r = un ? lintel::unsafe::atomic_fetch_or(p, (T)bits) : x->fetch_or((T)bits); break;
            case 1: now = (U)(was & bits); r = un ? lintel::unsafe::atomic_fetch_and(p, (T)(U)(bits | (U)~m)) : x->fetch_and((T)(U)(bits | (U)~m)); break;
            case 2: now = was ^ bits; r = un ? lintel::unsafe::atomic_fetch_xor(p, (T)bits) : x->fetch_xor((T)bits); break;
            case 3: now = was | bits; if (un) r = lintel::unsafe::atomic_fetch_or(p, (T)bits); else { r = *x |= (T)bits; before = false; } break;
            case 4: now = (U)(was & bits); if (un) r = lintel::unsafe::atomic_fetch_and(p, (T)(U)(bits | (U)~m)); else { r = *x &= (T)(U)(bits | (U)~m); before = false; } break;
            case 5: now = was ^ bits; if (un) r = lintel::unsafe::atomic_fetch_xor(p, (T)bits); else { r = *x ^= (T)bits; before = false; } break;
            case 6: now = (U)(was + bits) & m; if ((U)(t * w + w) < sizeof(T) * 8) now = was + bits, bits = 0, now = was; r = un ? lintel::unsafe::atomic_fetch_add(p, (T)bits) : x->fetch_add((T)bits); break; // the top lane may overflow
            default: { now = (U)((was & ~m) | bits); for (;;) { T e = un ? lintel::unsafe::atomic_load(p) : x->load(); T d = (T)(U)(((U)e & (U)~m) | bits); T e0 = e; bool ok = un ? lintel::unsafe::atomic_compare_exchange_strong(p, &e, d) : x->compare_exchange_strong(&e, d); r = e; if (ok) break; if (e == e0) violate("wrong-return", "a failed exchange found what it expected"); } }
            }
            U got = (U)((U)r & m); U want = before ? was : now; if (got != (U)(want & m)) { violate("lost-update", "%d-byte integer: a thread's own bits are %llx when its operation %d returns, %llx expected", (int)sizeof(T), (unsigned long long)got, k, (unsigned long long)(U)(want & m)); }
            mine[t] = (U)(now & m);
        } });
    joinAll(); ev("lanes", stepCount()); tsoEnd(); thrEnd(); nontrivial();
    U fin = (U)(un ? lintel::unsafe::atomic_load(p) : x->load()), want = 0; for (int t = 0; t < nt; ++t) want |= mine[t]; U all = 0; for (int t = 0; t < nt; ++t) all |= (U)(lane << (t * w));
    SIM_CHECK((U)(fin & all) == want, "lost-update", "final bits %llx, expected %llx", (unsigned long long)fin, (unsigned long long)want); finish();
}
#define BYTYPE(f) switch (choose(S_CFG, 0, 9)) { case 0: f<int>(); break; case 1: f<long>(); break; case 2: f<unsigned>(); break; case 3: f<unsigned long>(); break; case 4: f<short>(); break; case 5: f<unsigned short>(); break; case 6: f<signed char>(); break; case 7: f<unsigned char>(); break; case 8: f<long long>(); break; }
SC1("A01", mixed_O, A_VAR) { BYTYPE(mixed) }
SC1("A01", sums_O, A_VAR) { BYTYPE(sums) }
SC1("A01", lanes_O, A_VAR) { BYTYPE(lanes) }

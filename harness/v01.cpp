// V01: quantile sketches, against the sorted list of the values they accepted
#include "elem.hpp"
#include <math.h>
#include <memory>
#include <Lintel/StatsQuantile.hpp>
namespace {
struct Sketch { StatsQuantile *q; vector<double> ref; double eps; int64_t nbound; bool declared, lazy; int depth; unsigned resets; };
struct Pattern { unsigned kind; uint64_t salt; int64_t n; double scale; };
double valueAt(const Pattern &p, int64_t i) {
    uint64_t h = mix64(p.salt * 0x10001 + i);
    switch (p.kind) {
    case 0: return i * p.scale; case 1: return -i * p.scale; case 2: return (double)(h % 1000003) * p.scale - 500; case 3: return (double)(h % 5); case 4: return (i & 1 ? 1e6 - i : i) * p.scale; case 5: return i < p.n / 2 ? i : p.n - i;
    case 6: return (double)((i / 7) * 7 - (i % 7)) * p.scale; case 7: return exp2((double)(h % 120) - 60) * (h & 4096 ? -1 : 1); default: return p.salt % 17; }
}
// where the answer may be found: ranks are counted from 1, as the header does
void query(Sketch &s, double phi, const char *when) {
    int64_t n = s.ref.size(); double v = 0; string msg; Outcome o = attempt([&] { v = s.q->getQuantile(phi); }, &msg);
    if (o == FAILED) { SIM_CHECK(s.q->countll() == (uint64_t)n, "query-changed-it", "a failed query changed the count"); return; }
    if (n > s.nbound) { SIM_CHECK(o == FATAL, "beyond-bound-answered", "a quantile of %lld values given although the sketch was made for %lld", (long long)n, (long long)s.nbound); probe("beyond-bound"); return; }
    SIM_CHECK(o == DONE, "valid-use-refused", "getQuantile(%g) of %lld values %s: %s", phi, (long long)n, when, msg.c_str());
    if (n == 0) { SIM_CHECK(v != v, "empty-answered", "getQuantile(%g) = %g of no values", phi, v); return; }
    std::sort(s.ref.begin(), s.ref.end()); int64_t lo = std::lower_bound(s.ref.begin(), s.ref.end(), v) - s.ref.begin() + 1, hi = std::upper_bound(s.ref.begin(), s.ref.end(), v) - s.ref.begin();
    SIM_CHECK(lo <= hi, "invented-value", "getQuantile(%g) = %.17g %s, which was never added (%lld values)", phi, v, when, (long long)n);
    if (!s.declared) return; double e = s.eps * (s.depth + 1), slop = 1e-9 * n + 1e-9; int64_t a = (int64_t)ceil((phi - e) * n - slop), b = (int64_t)ceil((phi + e) * n + slop); if (b < 1) b = 1; if (a > n) a = n;
    SIM_CHECK(hi >= a && lo <= b, "outside-error", "getQuantile(%g) of %lld values %s gave ranks %lld..%lld, the stated error %g (%d merges deep) allows %lld..%lld", phi, (long long)n, when, (long long)lo, (long long)hi, s.eps, s.depth, (long long)a, (long long)b);
}
void totals(Sketch &s, const char *when) {
    Unlib u; size_t n = s.ref.size(); SIM_CHECK(s.q->countll() == n, "count-wrong", "%llu values counted %s, %zu were accepted", (unsigned long long)s.q->countll(), when, n); if (!n) return;
    double mn = s.ref[0], mx = s.ref[0], sum = 0, mag = 0; for (double d : s.ref) { if (d < mn) mn = d; if (d > mx) mx = d; sum += d; mag += fabs(d); }
    SIM_CHECK(s.q->min() == mn && s.q->max() == mx, "extremes-wrong", "[%g,%g] %s, the accepted values span [%g,%g]", s.q->min(), s.q->max(), when, mn, mx); SIM_CHECK(fabs(s.q->mean() - sum / n) <= 1e-9 * mag / n + 1e-300, "mean-wrong", "mean %.12g %s, the accepted values have %.12g", s.q->mean(), when, sum / n);
}
static const double epss[] = {0.1, 0.05, 0.02, 0.01, 0.19, 0.002, 0.15}; static const int64_t bounds[] = {1000, 100, 3000, 300, 5000, 20000, 1000000000};
void config(Sketch &s, unsigned sub) {
    s.q = NULL; s.depth = 0; s.resets = 0; s.declared = choose(S_CFG, sub, 5) != 4; s.lazy = choose(S_CFG, sub + 1, 3) != 2; s.eps = epss[choose(S_CFG, sub + 2, 7)]; s.nbound = bounds[choose(S_CFG, sub + 3, 7)]; if (!s.declared) { s.eps = 2 + choose(S_CFG, sub + 4, 5); s.nbound = 10 + choose(S_CFG, sub + 5, 12); s.lazy = true; } }
StatsQuantile *build(const Sketch &s) { return s.declared ? new StatsQuantile(s.eps, s.nbound, 10, s.lazy) : new StatsQuantile("", (int)s.eps, (int)s.nbound); }
void make(Sketch &s) {
    for (;;) { maybeArm(0, 0.3, 12); size_t before = libBlocks(); StatsQuantile *q = NULL; static std::set<std::pair<double, int64_t>> warm; bool cached; { Unlib u; cached = !s.declared || warm.count(std::make_pair(s.eps, s.nbound)); }
        Outcome o = attempt([&] { q = build(s); }); SIM_CHECK(o != FATAL, "valid-use-refused", "a sketch with error %g for %lld values refused", s.eps, (long long)s.nbound); if (o == DONE) { Unlib u; warm.insert(std::make_pair(s.eps, s.nbound)); s.q = q; break; }
        nontrivial(); if (cached) SIM_CHECK(libBlocks() == before, "memory-leaked", "a constructor that failed keeps %zu blocks", libBlocks() - before); }
    if (!s.declared) s.nbound = 5000000; }
SIM_SCENARIO("V01", sketches, 3) {
    throwingAsserts(); unsigned n = 1 + choose(S_CFG, 0, 4); bool same = choose(S_CFG, 1, 2); vector<Sketch> all(n); for (unsigned i = 0; i < n; ++i) { config(all[i], same ? 10 : 10 + 6 * i); make(all[i]); }
    int ops = range(S_CFG, 2, 2, tierThorough() ? 60 : 24); int64_t budget = tierThorough() ? 60000 : 12000; bool nt = false; static const double phis[] = {0.5, 0, 1, 0.9, 0.1, 0.25, 0.99, 0.999, 0.01, 0.333};
    for (int i = 0; i < ops; ++i) {
        Sketch &s = all[choose(S_WORK, 0, n)]; unsigned op = chooseW(S_WORK, 1, {6, 4, 3, 1, 1}); ev("op", op, &s - &all[0]);
        switch (op) {
        case 0: { Pattern p; p.kind = choose(S_WORK, 2, 9); p.salt = choose(S_WORK, 3, 1 << 20); static const int sizes[] = {10, 1, 100, 1000, 3000, 37}; p.n = sizes[choose(S_WORK, 4, 6)] + choose(S_WORK, 5, 40); if (p.n > budget) p.n = budget; p.scale = choose(S_WORK, 6, 3) == 2 ? 1e-3 : 1; budget -= p.n; note("   %lld values of kind %u into %ld (%zu so far)", (long long)p.n, p.kind, (long)(&s - &all[0]), s.ref.size());
            maybeArm(1, 0.5, 6); for (int64_t k = 0; k < p.n; ++k) { double v = valueAt(p, k); Outcome o = DONE; try { Lib l; s.q->add(v); } catch (std::bad_alloc &) { o = FAILED; } catch (AssertBoostException &e) { violate("valid-use-refused", "add: %s", e.msg.c_str()); }
                if (o == DONE) s.ref.push_back(v); else { SIM_CHECK(faultFired(), "spurious-failure", "adding a value failed although nothing was made to fail"); disarmFault(); probe("failed-add"); nt = true; note("   add failed after %lld", (long long)k); SIM_CHECK(s.q->countll() == s.ref.size(), "half-added", "a value whose add failed is counted"); query(s, 0.5, "after a failed add"); } }
            disarmFault(); totals(s, "after adding"); break; }
        case 1: for (int k = 0, m = 1 + choose(S_WORK, 7, 4); k < m; ++k) { maybeArm(2, 0.2, 3); query(s, phis[choose(S_WORK, 8, 10)], "later"); } break;
        case 2: { Sketch &t = all[choose(S_WORK, 9, n)]; bool self = &t == &s; if ((int64_t)t.ref.size() > budget) break; bool quick = s.ref.empty(); double before[4], after[4]; bool ask = (int64_t)s.ref.size() <= s.nbound; note("   merge %ld (%zu) into %ld (%zu)", (long)(&t - &all[0]), t.ref.size(), (long)(&s - &all[0]), s.ref.size()); if (ask) for (int k = 0; k < 4; ++k) before[k] = s.q->getQuantile(phis[k]);
            maybeArm(3, 0.6, 10); string msg; Outcome o = attempt([&] { s.q->add(*t.q); }, &msg); SIM_CHECK(o != FATAL, "valid-use-refused", "merge: %s", msg.c_str());
            if (o == DONE) { budget -= t.ref.size(); if (self) { vector<double> twice = s.ref; s.declared = s.declared && (int64_t)s.ref.size() <= s.nbound; if (!twice.empty()) ++s.depth; s.ref.insert(s.ref.end(), twice.begin(), twice.end()); nt = true; probe("merged-with-itself"); } else { if (!t.ref.empty()) { if (quick) s.depth = t.depth + 1; else s.depth = std::max(s.depth, t.depth + 1); } s.declared = s.declared && t.declared && (int64_t)t.ref.size() <= t.nbound; s.eps = std::max(s.eps, t.eps); s.ref.insert(s.ref.end(), t.ref.begin(), t.ref.end()); probe("merged"); } }
            else { nt = true; probe("failed-merge"); SIM_CHECK(s.q->countll() == s.ref.size(), "half-merged", "a merge that failed left %llu values, there were %zu", (unsigned long long)s.q->countll(), s.ref.size()); if (ask) for (int k = 0; k < 4; ++k) { after[k] = s.q->getQuantile(phis[k]); SIM_CHECK(after[k] == before[k] || (after[k] != after[k] && before[k] != before[k]), "half-merged", "getQuantile(%g) was %g and is %g after a merge that failed", phis[k], before[k], after[k]); } }
            totals(s, "after a merge"); totals(t, "after being merged"); query(s, 0.5, "after a merge"); query(t, 0.5, "after being merged"); break; }
        case 3: { Lib l; s.q->reset(); } s.ref.clear(); s.depth = 0; ++s.resets; totals(s, "after a reset"); query(s, 0.5, "after a reset"); break;
        case 4: { size_t b0 = 0; Outcome o; { Lib l; delete s.q; } s.q = NULL; (void)b0; (void)o; s.ref.clear(); config(s, 60); make(s); break; }
        }
        stateHash(s.ref.size() / 16 * 8 + op);
    }
    for (Sketch &s : all) { if ((int64_t)s.ref.size() > 200) nt = true; totals(s, "at the end"); for (double phi : phis) query(s, phi, "at the end"); }
    size_t others = 0; for (Sketch &s : all) { size_t b = libBlocks(); { Lib l; delete s.q; } (void)b; (void)others; }
    if (nt) nontrivial();
}
// everything a sketch allocated is returned with it
SIM_SCENARIO("V01", memory, 1) {
    throwingAsserts(); Sketch s; config(s, 10); { Lib l; delete build(s); } size_t base = libBlocks(); Sketch t = s; make(s); make(t); bool nt = false;
    for (int i = 0, m = 1 + choose(S_WORK, 0, 8); i < m; ++i) { Pattern p; p.kind = choose(S_WORK, 2, 9); p.salt = choose(S_WORK, 3, 1 << 20); p.n = choose(S_WORK, 4, 1200); p.scale = 1; maybeArm(1, 0.5, 6); for (int64_t k = 0; k < p.n; ++k) { try { Lib l; (i % 2 ? s : t).q->add(valueAt(p, k)); } catch (std::bad_alloc &) { nt = true; disarmFault(); } } disarmFault(); maybeArm(2, 0.5, 10); if (choose(S_WORK, 5, 2)) { Outcome o = attempt([&] { s.q->add(*t.q); }); if (o == FAILED) nt = true; } disarmFault(); if (choose(S_WORK, 6, 4) == 3) { Lib l; t.q->reset(); } }
    { Lib l; delete s.q; delete t.q; } SIM_CHECK(libBlocks() == base, "memory-leaked", "%ld blocks remain after two sketches are gone", (long)(libBlocks() - base)); if (nt) nontrivial();
}
}

// C01: tables and cubes of statistics, against a reference computed from the samples
#include "elem.hpp"
#include <math.h>
#include <boost/tuple/tuple_comparison.hpp>
#include <Lintel/StatsCube.hpp>
namespace {
typedef boost::tuple<int32_t, string, int32_t> Key; typedef lintel::HashTupleStats<Key> Table; typedef lintel::StatsCube<Key> Cube; typedef Cube::MyAny Any;
struct Sum { int64_t n; double sum, sq, mn, mx; Sum() : n(0), sum(0), sq(0), mn(INFINITY), mx(-INFINITY) { } void add(double v) { ++n; sum += v; sq += v * v; if (v < mn) mn = v; if (v > mx) mx = v; } void add(const Sum &o) { n += o.n; sum += o.sum; sq += o.sq; if (o.mn < mn) mn = o.mn; if (o.mx > mx) mx = o.mx; } };
struct K3 { int a; string b; int c; bool operator<(const K3 &o) const { return a != o.a ? a < o.a : b != o.b ? b < o.b : c < o.c; } bool operator==(const K3 &o) const { return a == o.a && b == o.b && c == o.c; } };
K3 k3(const Key &k) { K3 r = {k.get<0>(), k.get<1>(), k.get<2>()}; return r; } Key key(const K3 &k) { return Key(k.a, k.b, k.c); }
struct C3 { unsigned any; K3 k; bool operator<(const C3 &o) const { // "any" comes after every value
    for (int i = 0; i < 3; ++i) { bool x = any >> i & 1, y = o.any >> i & 1; if (x != y) return y; if (x) continue; if (i == 0 && k.a != o.k.a) return k.a < o.k.a; if (i == 1 && k.b != o.k.b) return k.b < o.k.b; if (i == 2 && k.c != o.k.c) return k.c < o.k.c; } return false; } };
C3 c3(const Any &a) { C3 r; r.any = a.any[0] | a.any[1] << 1 | a.any[2] << 2; r.k = k3(a.data); if (r.any & 1) r.k.a = 0; if (r.any & 2) r.k.b.clear(); if (r.any & 4) r.k.c = 0; return r; }
C3 c3(K3 k, unsigned any) { C3 r; r.any = any; r.k = k; if (any & 1) r.k.a = 0; if (any & 2) r.k.b.clear(); if (any & 4) r.k.c = 0; return r; }
string text(const K3 &k) { return "(" + std::to_string(k.a) + "," + k.b + "," + std::to_string(k.c) + ")"; }
string text(const C3 &c) { return "(" + string(c.any & 1 ? "*" : std::to_string(c.k.a)) + "," + (c.any & 2 ? "*" : c.k.b) + "," + (c.any & 4 ? "*" : std::to_string(c.k.c)) + ")"; }
typedef std::map<K3, Sum> Ref; typedef std::map<C3, Sum> CRef;
void same(const Stats &s, const Sum &w, const string &where, const char *when) {
    SIM_CHECK((int64_t)s.countll() == w.n, "count-wrong", "%s %s counts %llu values, expected %lld", where.c_str(), when, (unsigned long long)s.countll(), (long long)w.n); if (!w.n) return; double m = w.sum / w.n;
    SIM_CHECK(fabs(s.mean() - m) <= 1e-9 * (1 + fabs(m)) && s.min() == w.mn && s.max() == w.mx && fabs(s.variance() - (w.sq / w.n - m * m)) <= 1e-6 * (1 + w.sq / w.n), "content-wrong", "%s %s: mean %g in [%g,%g], expected %g in [%g,%g]", where.c_str(), when, s.mean(), s.min(), s.max(), m, w.mn, w.mx); }
struct Thrown { }; // what a user's function throws
size_t g_made, g_max; // statistics handed out by the factory, still alive
struct Counted : Stats { Counted() { Unlib u; ++g_made; } ~Counted() { Unlib u; --g_made; } };
bool g_cbFaults; unsigned g_cbAt; // the g_cbAt-th call of a user's function from now throws
void point(const char *) { if (g_cbAt && --g_cbAt == 0) { Unlib u; fault("function-throws"); throw Thrown(); } }
Stats *factory() { point("factory"); return new Counted; }
enum Res { OK, FAIL, DIE };
template<class F> Res run(F fn, string *msg = NULL) { // runs library code that may fail by allocation or by the user's function
    unsigned armed = g_cbAt; Res r = OK; try { Lib l; fn(); } catch (Thrown &) { r = FAIL; } catch (std::bad_alloc &) { r = FAIL; SIM_CHECK(faultFired(), "spurious-failure", "out of memory although nothing was made to fail"); } catch (AssertBoostException &e) { r = DIE; if (msg) *msg = e.msg; }
    (void)armed; disarmFault(); g_cbAt = 0; if (r == FAIL) probe("failed-operation"); return r; }
void arm(unsigned sub, double p) { g_cbAt = 0; if (!faultsEnabled() || !chance(S_FAULT, sub, p)) return; if (choose(S_FAULT, sub + 1, 2)) g_cbAt = 1 + choose(S_FAULT, sub + 2, choose(S_FAULT, sub + 3, 3) ? 6 : 60); else maybeArm(sub + 4, 1.0, choose(S_FAULT, sub + 5, 3) ? 8 : 150); }
string wideName(int i) { return "name " + std::to_string(i * 7919); }
K3 draw(int na, int nb, int nc) { static const char *names[] = {"a", "", "bb", "a rather long name that needs memory", "c", "another rather long name, also in memory", "d", "e"}; K3 k; k.a = choose(S_WORK, 40, na) - 1; int ib = choose(S_WORK, 41, nb); k.b = ib < 8 ? string(names[ib]) : wideName(ib); k.c = choose(S_WORK, 42, nc) * 1000003; return k; }
void checkTable(const Table &t, const Ref &ref, const char *when) {
    Unlib u; SIM_CHECK(t.size() == ref.size(), "entries-wrong", "%zu entries %s, expected %zu", t.size(), when, ref.size()); std::set<K3> seen;
    t.walk([&](const Key &k, Stats &s) { K3 x = k3(k); auto it = ref.find(x); SIM_CHECK(it != ref.end(), "entry-invented", "%s %s", text(x).c_str(), when); SIM_CHECK(seen.insert(x).second, "entry-twice", "%s %s", text(x).c_str(), when); SIM_CHECK(&s != NULL, "entry-without-statistic", "%s %s", text(x).c_str(), when); same(s, it->second, text(x), when); }); SIM_CHECK(seen.size() == ref.size(), "entry-missed", "walk visited %zu of %zu %s", seen.size(), ref.size(), when); }
struct Dims { std::set<int> a; std::set<string> b; std::set<int> c; };
Dims dims(const Ref &ref) { Dims d; for (auto &e : ref) { d.a.insert(e.first.a); d.b.insert(e.first.b); d.c.insert(e.first.c); } return d; }
Ref withZeros(const Ref &ref, const Dims &d, bool count) { Ref r; for (int a : d.a) for (auto &b : d.b) for (int c : d.c) { K3 k = {a, b, c}; auto it = ref.find(k); if (it != ref.end()) r[k] = it->second; else if (count) r[k].add(0); else r[k]; } return r; }
void checkHut(const Table::HashUniqueTuple &h, const Dims &d) { Unlib u; SIM_CHECK(h.get_head().size() == d.a.size() && h.get_tail().get_head().size() == d.b.size() && h.get_tail().get_tail().get_head().size() == d.c.size(), "values-wrong", "the distinct values are counted %u %u %u, expected %zu %zu %zu", h.get_head().size(), h.get_tail().get_head().size(), h.get_tail().get_tail().get_head().size(), d.a.size(), d.b.size(), d.c.size()); }
// prunes one dimension's values from both
void dropValues(Table::HashUniqueTuple &h, Dims &d) { unsigned which = choose(S_WORK, 50, 3), n = choose(S_WORK, 51, 3); for (unsigned i = 0; i < n; ++i) { if (which == 0 && !d.a.empty()) { int v = *d.a.begin(); d.a.erase(v); Lib l; h.get_head().remove(v); } if (which == 1 && !d.b.empty()) { string v = *d.b.begin(); d.b.erase(v); Lib l; h.get_tail().get_head().remove(v); } if (which == 2 && !d.c.empty()) { int v = *d.c.begin(); d.c.erase(v); Lib l; h.get_tail().get_tail().get_head().remove(v); } } }
SIM_SCENARIO("C01", table, 2) {
    throwingAsserts(); g_made = 0; size_t base = libBlocks(); int na = 1 + choose(S_CFG, 0, 6), nb = 1 + choose(S_CFG, 1, 8), nc = 1 + choose(S_CFG, 2, 4), ops = range(S_CFG, 3, 2, tierThorough() ? 250 : 80); if (choose(S_CFG, 8, 5) == 1) { na = range(S_CFG, 9, 17, 41); nb = range(S_CFG, 10, 1, 24); ops *= 2; probe("many-values"); } Table *t; { Lib l; t = new Table(factory); } Ref ref; bool nt = false;
    for (int i = 0; i < ops; ++i) {
        unsigned op = chooseW(S_WORK, 0, {12, 2, 2, 2, 2, 1, 1}); string msg; Res r = OK; ev("op", op, ref.size());
        switch (op) {
        case 0: { K3 k = draw(na, nb, nc); double v = (double)choose(S_WORK, 1, 100) - 20; arm(0, 0.25); int how = choose(S_WORK, 2, 4); r = run([&] { if (how == 3) (*t)[key(k)].add(v); else if (how == 2) t->getHashEntry(key(k)).add(v); else t->add(key(k), v); }, &msg); note("   add %g at %s -> %d", v, text(k).c_str(), r); if (r == OK) ref[k].add(v); break; }
        case 1: { std::set<K3> seen; bool ordered = choose(S_WORK, 3, 2), inOrder = true; K3 last; arm(10, 0.4); auto fn = [&](const Key &k, Stats &s) { point("walk"); Unlib u; K3 x = k3(k); if (ordered && !seen.empty() && !(last < x)) inOrder = false; last = x; auto it = ref.find(x); SIM_CHECK(it != ref.end() && seen.insert(x).second, "entry-invented", "%s in a walk", text(x).c_str()); same(s, it->second, text(x), "in a walk"); }; r = run([&] { if (ordered) t->walkOrdered(fn); else t->walk(fn); }, &msg); SIM_CHECK(inOrder, "order-wrong", "an ordered walk gave keys out of order"); if (r == OK) SIM_CHECK(seen.size() == ref.size(), "entry-missed", "a walk visited %zu of %zu", seen.size(), ref.size()); break; }
        case 2: { bool count = choose(S_WORK, 4, 2), pruned = choose(S_WORK, 5, 3) == 2; Dims d = dims(ref); Table::HashUniqueTuple *hut = NULL; Ref want; if (pruned) { { Lib l; hut = new Table::HashUniqueTuple; t->fillHashUniqueTuple(*hut); } checkHut(*hut, d); dropValues(*hut, d); } want = withZeros(ref, d, count); std::set<K3> seen; size_t made = g_made; arm(20, 0.5);
            auto fn = [&](const Key &k, Stats &s) { point("walk"); Unlib u; K3 x = k3(k); auto it = want.find(x); SIM_CHECK(it != want.end() && seen.insert(x).second, "entry-invented", "%s in a walk with zeros", text(x).c_str()); same(s, it->second, text(x), "in a walk with zeros"); };
            r = run([&] { if (hut) t->walkZeros(fn, *hut, count); else t->walkZeros(fn, count); }, &msg); if (r == OK) SIM_CHECK(seen.size() == want.size(), "entry-missed", "a walk with zeros visited %zu of %zu", seen.size(), want.size()); SIM_CHECK(g_made == made, "statistic-leaked", "a walk with zeros leaves %ld statistics behind", (long)(g_made - made)); { Lib l; delete hut; } break; }
        case 3: { unsigned salt = choose(S_WORK, 6, 1000), keep = choose(S_WORK, 7, 4); auto drop = [&](const K3 &k) { return (mix64(salt * 31 + k.a * 7 + k.c * 13 + k.b.size()) & 3) > keep; }; std::set<K3> asked; arm(30, 0.3); Ref before = ref; std::set<K3> gone; K3 lastGone; r = run([&] { t->prune([&](const Key &k) { point("prune"); Unlib u; K3 x = k3(k); SIM_CHECK(before.count(x), "entry-invented", "%s while pruning", text(x).c_str()); bool d = drop(x); if (d) { gone.insert(x); lastGone = x; } return d; }); }, &msg); if (r == FAIL && !gone.empty() && t->size() == ref.size() - gone.size() + 1) gone.erase(lastGone); note("   prune: %zu of %zu -> %d", gone.size(), ref.size(), r); for (auto &k : gone) ref.erase(k); if (r == OK) for (auto &e : before) SIM_CHECK(!drop(e.first) || gone.count(e.first), "entry-not-pruned", "%s", text(e.first).c_str()); break; }
        case 4: { K3 k = draw(na, nb, nc); arm(0, 0.3); r = run([&] { Stats &s = t->getHashEntry(key(k)); Unlib u; auto it = ref.find(k); if (it == ref.end()) same(s, Sum(), text(k), "just made"); else same(s, it->second, text(k), "looked up"); }, &msg); if (r == OK) ref[k]; break; }
        case 5: { Lib l; t->clear(); } ref.clear(); SIM_CHECK(g_made == 0, "statistic-leaked", "%zu statistics remain after clear", g_made); break;
        case 6: { Unlib u; (void)t->memoryUsage(); } break;
        }
        SIM_CHECK(r != DIE, "valid-use-refused", "operation %u: %s", op, msg.c_str()); if (r == FAIL) nt = true; checkTable(*t, ref, r == FAIL ? "after a failure" : "later"); SIM_CHECK(g_made == ref.size(), "statistic-leaked", "%zu statistics are alive for %zu entries", g_made, ref.size()); stateHash(ref.size() * 8 + op);
    }
    { Lib l; delete t; } SIM_CHECK(g_made == 0 && libBlocks() == base, "memory-leaked", "%zu statistics and %ld blocks remain", g_made, (long)(libBlocks() - base)); if (nt || ref.size() > 8) nontrivial();
}
void intoCube(CRef &c, const Ref &rows, bool all, unsigned rule, bool mean) { for (auto &e : rows) for (unsigned m = 0; m < 8; ++m) { if (!all && !m) continue; if (rule == 2 && (m & 1)) continue; Sum &s = c[c3(e.first, m)]; if (mean) s.add(e.second.n ? e.second.sum / e.second.n : 0); else s.add(e.second); } }
void checkCube(Cube &c, const CRef &ref, const char *when) { Unlib u; SIM_CHECK(c.size() == ref.size(), "cells-wrong", "%zu cells %s, expected %zu", c.size(), when, ref.size()); std::set<C3> seen; c.walk([&](const Any &k, Stats &s) { C3 x = c3(k); auto it = ref.find(x); SIM_CHECK(it != ref.end(), "cell-invented", "%s %s", text(x).c_str(), when); SIM_CHECK(seen.insert(x).second, "cell-twice", "%s %s", text(x).c_str(), when); SIM_CHECK(&s != NULL, "cell-without-statistic", "%s %s", text(x).c_str(), when); same(s, it->second, text(x), when); }); SIM_CHECK(seen.size() == ref.size(), "cell-missed", "walk visited %zu of %zu %s", seen.size(), ref.size(), when); }
SIM_SCENARIO("C01", cube, 2) {
    throwingAsserts(); g_made = 0; size_t base = libBlocks(); int na = 1 + choose(S_CFG, 0, 4), nb = 1 + choose(S_CFG, 1, 5), nc = 1 + choose(S_CFG, 2, 3), ops = range(S_CFG, 3, 2, tierThorough() ? 100 : 40); if (choose(S_CFG, 8, 5) == 1) { na = range(S_CFG, 9, 17, 30); ops *= 2; probe("many-values"); } unsigned rule = choose(S_CFG, 4, 3); bool mean = choose(S_CFG, 5, 3) == 2, all = rule == 1; bool nt = false; Cube *c;
    auto optional = [&](bool any, const Any &k) { point("optional"); return rule == 1 ? true : rule == 2 ? any && !k.any[0] : any; }; auto addFn = [&](Stats &into, const Stats &v) { point("combine"); if (mean) into.add(v.mean()); else into.add(v); };
    { Lib l; c = rule == 0 && !mean && choose(S_CFG, 6, 2) == 0 && !faultsEnabled() ? new Cube(boost::bind(&lintel::StatsCubeFns::cubeHadAny, _1), boost::bind(&lintel::StatsCubeFns::addFullStats, _1, _2), factory, factory) : new Cube(optional, addFn, factory, factory); if (choose(S_CFG, 7, 2)) { c->setOptionalCubeFn(optional); c->setCubeStatsAddFn(addFn); } }
    Ref ref; CRef cells;
    // a cube that failed part-way holds whole contributions only: every cell between what it was and what it was to become
    auto partial = [&](const CRef &before, const CRef &after) { Unlib u; std::set<C3> seen; c->walk([&](const Any &k, Stats &s) { C3 x = c3(k); SIM_CHECK(&s != NULL, "cell-without-statistic", "%s after a failure", text(x).c_str()); SIM_CHECK(seen.insert(x).second, "cell-twice", "%s after a failure", text(x).c_str()); auto it = after.find(x); SIM_CHECK(it != after.end(), "cell-invented", "%s after a failure", text(x).c_str()); auto b = before.find(x); int64_t lo = b == before.end() ? 0 : b->second.n; SIM_CHECK((int64_t)s.countll() >= lo && (int64_t)s.countll() <= it->second.n, "count-wrong", "%s counts %llu values after a failure, expected between %lld and %lld", text(x).c_str(), (unsigned long long)s.countll(), (long long)lo, (long long)it->second.n); }); for (auto &e : before) SIM_CHECK(seen.count(e.first), "cell-missed", "%s is gone after a failure", text(e.first).c_str()); SIM_CHECK(seen.size() == c->size(), "cells-wrong", "%zu cells visited of %zu after a failure", seen.size(), c->size()); };
    for (int i = 0; i < ops; ++i) {
        unsigned op = chooseW(S_WORK, 0, {10, 3, 2, 2, 2, 1, 2, 1}); string msg; Res r = OK; ev("op", op, ref.size(), cells.size()); bool reset = false;
        switch (op) {
        case 0: { K3 k = draw(na, nb, nc); double v = (double)choose(S_WORK, 1, 100) - 20; arm(0, 0.15); r = run([&] { c->add(key(k), v); }, &msg); if (r == OK) ref[k].add(v); break; }
        case 1: case 2: { bool count = choose(S_WORK, 4, 2), pruned = choose(S_WORK, 5, 3) == 2; Ref rows = ref; Table::HashUniqueTuple *hut = NULL; if (op == 2) { Dims d = dims(ref); if (pruned) { { Lib l; hut = new Table::HashUniqueTuple; c->base_data.fillHashUniqueTuple(*hut); } checkHut(*hut, d); dropValues(*hut, d); } rows = withZeros(ref, d, count); }
            CRef want = cells; intoCube(want, rows, all, rule, mean); arm(10, 0.5); r = run([&] { if (op == 1) c->cube(); else if (hut) c->zeroCube(c->base_data, *hut, count); else c->zeroCube(count); }, &msg); note("   %s of %zu rows -> %d", op == 1 ? "cube" : "cube with zeros", rows.size(), r);
            if (r == OK) cells = want; else { partial(cells, want); reset = true; } { Lib l; delete hut; } break; }
        case 3: { K3 k = draw(na, nb, nc); Stats one; Ref rows; for (int j = choose(S_WORK, 6, 3); j >= 0; --j) { double v = (double)choose(S_WORK, 1, 100); one.add(v); rows[k].add(v); } CRef want = cells; intoCube(want, rows, all, rule, mean); arm(20, 0.3); r = run([&] { c->addToCube(key(k), one); }, &msg); if (r == OK) cells = want; else { partial(cells, want); reset = true; } break; }
        case 4: { std::set<C3> seen; bool inOrder = true, ordered = choose(S_WORK, 3, 2); C3 last; arm(30, 0.4); auto fn = [&](const Any &k, Stats &s) { point("walk"); Unlib u; C3 x = c3(k); if (ordered && !seen.empty() && !(last < x)) inOrder = false; last = x; auto it = cells.find(x); SIM_CHECK(it != cells.end() && seen.insert(x).second, "cell-invented", "%s in a walk", text(x).c_str()); same(s, it->second, text(x), "in a walk"); }; r = run([&] { if (ordered) c->walkOrdered(fn); else c->walk(fn); }, &msg); SIM_CHECK(inOrder, "order-wrong", "an ordered walk of a cube gave cells out of order"); if (r == OK) SIM_CHECK(seen.size() == cells.size(), "cell-missed", "a walk visited %zu of %zu", seen.size(), cells.size()); break; }
        case 5: { unsigned salt = choose(S_WORK, 6, 1000), keep = choose(S_WORK, 7, 4); bool baseToo = choose(S_WORK, 8, 2); auto drop = [&](const K3 &k, unsigned any) { return (mix64(salt * 31 + k.a * 7 + k.c * 13 + k.b.size() + any * 1009) & 3) > keep; }; std::set<C3> gone; C3 lastGone; arm(40, 0.3); r = run([&] { c->prune([&](const Any &k) { point("prune"); Unlib u; C3 x = c3(k); SIM_CHECK(cells.count(x), "cell-invented", "%s while pruning", text(x).c_str()); bool d = drop(x.k, x.any); if (d) { gone.insert(x); lastGone = x; } return d; }); }, &msg); if (r == FAIL && !gone.empty() && c->size() == cells.size() - gone.size() + 1) gone.erase(lastGone); if (r == OK) for (auto &e : cells) SIM_CHECK(!drop(e.first.k, e.first.any) || gone.count(e.first), "cell-not-pruned", "%s", text(e.first).c_str()); for (auto &x : gone) cells.erase(x); if (r == OK && baseToo) { run([&] { c->base_data.prune([&](const Key &k) { Unlib u; return drop(k3(k), 0); }); }); for (auto it = ref.begin(); it != ref.end();) if (drop(it->first, 0)) it = ref.erase(it); else ++it; } break; }
        case 6: { K3 k = draw(na, nb, nc); unsigned m = choose(S_WORK, 9, 8); Any a(key(k)); for (int j = 0; j < 3; ++j) a.any[j] = m >> j & 1; C3 x = c3(k, m); arm(50, 0.3); r = run([&] { Stats &s = c->getCubeEntry(a); Unlib u; auto it = cells.find(x); same(s, it == cells.end() ? Sum() : it->second, text(x), "looked up"); }, &msg); if (r == OK) cells[x]; break; }
        case 7: { bool both = choose(S_WORK, 10, 2); { Lib l; c->clear(both); } cells.clear(); if (both) ref.clear(); break; }
        }
        SIM_CHECK(r != DIE, "valid-use-refused", "operation %u: %s", op, msg.c_str()); if (r == FAIL) nt = true;
        if (reset) { { Lib l; c->clear(false); } cells.clear(); probe("cube-failed-part-way"); } // the base data is untouched, the cube can be built again
        checkTable(c->base_data, ref, r == FAIL ? "in the base data after a failure" : "in the base data"); checkCube(*c, cells, r == FAIL ? "after a failure" : "later"); SIM_CHECK(g_made == ref.size() + cells.size(), "statistic-leaked", "%zu statistics are alive for %zu entries and %zu cells", g_made, ref.size(), cells.size()); stateHash(ref.size() * 64 + cells.size() * 8 + op);
    }
    { Lib l; delete c; } SIM_CHECK(g_made == 0 && libBlocks() == base, "memory-leaked", "%zu statistics and %ld blocks remain", g_made, (long)(libBlocks() - base)); if (nt || cells.size() > 12) nontrivial();
}
}

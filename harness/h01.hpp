// H01: hash table, map and unique set against std containers
#ifndef DBG
#define DBG 0
#endif
#include "elem.hpp"
#include <ostream>
#include <unordered_map>
#include <Lintel/HashMap.hpp>
#include <Lintel/HashUnique.hpp>
namespace {
unsigned hmode;
uint32_t hashOf(int v) { switch (hmode) { case 0: return lintel::hashBytes(&v, sizeof v, 17); case 1: return v % 3; case 2: return v * 0x10000001u; case 3: return 7; default: return v; } }
struct EHash { uint32_t operator()(const Elem &e) const { return hashOf(e.get()); } };
struct KV { Elem k, v; KV() { } KV(int a, int b) : k(a), v(b) { } };
struct KVHash { uint32_t operator()(const KV &e) const { return hashOf(e.k.get()); } };
struct KVEq { bool operator()(const KV &a, const KV &b) const { return a.k.get() == b.k.get(); } };
typedef HashMap<Elem, Elem, EHash> HM; typedef HashUnique<KV, KVHash, KVEq> HU; typedef HashTable<KV, KVHash, KVEq> HT;
typedef std::multimap<int, int> Model;
string show(const Model &m) { string s; for (auto &p : m) s += " " + std::to_string(p.first) + "=" + std::to_string(p.second); return s; }
int keyOf(const std::pair<Elem, Elem> &p) { return p.first.get(); } int valOf(const std::pair<Elem, Elem> &p) { return p.second.get(); }
int keyOf(const KV &p) { return p.k.get(); } int valOf(const KV &p) { return p.v.get(); }
bool same(const Model &a, const Model &b) { vector<std::pair<int, int> > x(a.begin(), a.end()), y(b.begin(), b.end()); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); return x == y; }
template<class C> Model contents(C &c, const char *op) { Model m; size_t n = c.size(), k = 0; for (auto i = c.begin(); i != c.end(); ++i) { if (++k > n + 2) violate("iteration-wrong", "after %s: iteration visits more than the %zu entries", op, n); m.insert(std::make_pair(keyOf(*i), valOf(*i))); } return m; }
int universe; size_t blocks0, elems0, staticElems, staticBlocks; bool nt, touched, lastFailed;
template<class C> void compare(C &c, const Model &m, const char *op) {
    SIM_CHECK(c.size() == m.size(), "size-wrong", "after %s: size %zu, expected %zu", op, (size_t)c.size(), m.size());
    Model g = contents(c, op); SIM_CHECK(same(g, m), "contents-wrong", "after %s: contents%s, expected%s", op, show(g).c_str(), show(m).c_str());
    const C &cc = c; Model g2 = contents(cc, op); SIM_CHECK(same(g2, m), "const-iteration-wrong", "after %s: contents%s, expected%s", op, show(g2).c_str(), show(m).c_str());
    stateHash(m.size() * 131 + c.capacity());
}
bool hasKV(const Model &m, int k, int v) { auto r = m.equal_range(k); for (auto i = r.first; i != r.second; ++i) if (i->second == v) return true; return false; }
void lookups(HM &c, const Model &m, const char *op) { const HM &cc = c; for (int k = 0; k < universe; ++k) { Elem e(k); Elem *p = c.lookup(e); const Elem *q = cc.lookup(e); size_t n = m.count(k); SIM_CHECK((p != NULL) == (n > 0) && q == p && c.exists(e) == (n > 0), "lookup-wrong", "after %s: key %d found %d, expected %zu", op, k, p != NULL, n); if (p) SIM_CHECK(hasKV(m, k, p->get()), "value-wrong", "after %s: key %d has value %d", op, k, p->get()); SIM_CHECK((c.find(e) == c.end()) == (n == 0) && (cc.find(e) == cc.end()) == (n == 0), "find-wrong", "after %s: key %d", op, k); } SIM_CHECK(c.empty() == m.empty(), "size-wrong", "empty()"); c.getHashTable().verifyFreeListSize(); if (c.getHashTable().dense()) SIM_CHECK(c.getHashTable().unsafeGetRawDataVector().size() == m.size(), "size-wrong", "dense table: raw vector has %zu entries", c.getHashTable().unsafeGetRawDataVector().size()); }
void lookups(HT &c, const Model &m, const char *op) { const HT &cc = c; for (int k = 0; k < universe; ++k) { KV e(k, 0); KV *p = c.lookup(e); const KV *q = cc.lookup(e); size_t n = m.count(k); SIM_CHECK((p != NULL) == (n > 0) && p == q, "lookup-wrong", "after %s: key %d found %d, expected %zu", op, k, p != NULL, n); if (p) SIM_CHECK(keyOf(*p) == k && hasKV(m, k, valOf(*p)), "value-wrong", "after %s: key %d gives %d=%d", op, k, keyOf(*p), valOf(*p)); SIM_CHECK((c.find(e) == c.end()) == (n == 0) && (cc.find(e) == cc.end()) == (n == 0), "find-wrong", "after %s: key %d", op, k); }
    c.verifyFreeListSize(); KV *r = c.randomlookup(choose(S_DATA, 1, 1000), choose(S_DATA, 1, 1000)); SIM_CHECK((r == NULL) == m.empty() && (!r || hasKV(m, keyOf(*r), valOf(*r))), "randomlookup-wrong", "after %s", op); }
void lookups(HU &c, const Model &m, const char *op) { for (int k = 0; k < universe; ++k) { KV e(k, 0); SIM_CHECK(c.exists(e) == (m.count(k) > 0), "lookup-wrong", "after %s: key %d exists %d, expected %zu", op, k, c.exists(e), m.count(k)); } }
template<class C> C *fresh(C *) { return new C; }
HM *fresh(HM *) { return choose(S_CFG, 5, 3) ? new HM : new HM(0.5 + choose(S_CFG, 5, 6)); }
HT *fresh(HT *) { return choose(S_CFG, 5, 3) ? new HT : new HT(0.5 + choose(S_CFG, 5, 6)); }
// after a failed operation the contents must be one of the allowed ones
template<class C> Model settle(C &c, const char *op, std::initializer_list<Model> allowed) { nt = lastFailed = true; Model g = contents(c, op); for (auto &m : allowed) if (same(g, m)) return m; violate("torn-by-failure", "a failed %s left%s, expected%s", op, show(g).c_str(), show(*allowed.begin()).c_str()); }
// operations common to all: returns false if op is not one of them.
template<class C> bool commonOp(C *&c, Model &m, unsigned op, const char *&name) {
    Model before = m, after = m; Outcome o; int k = choose(S_WORK, 1, universe); (void)k;
    switch (op) {
    case 20: name = "clear"; { maybeArm(0, 0.1, 4); o = attempt([&] { c->clear(); }); after.clear(); m = o == DONE ? after : settle(*c, name, {after, before}); if (o == DONE) touched = false; return true; }
    case 21: name = "reserve"; { unsigned n = choose(S_WORK, 2, 60); maybeArm(0, 0.5, 3); bool never = m.empty(); o = attempt([&] { c->reserve(n); }); if (o == FATAL) { SIM_CHECK(!never || touched, "valid-use-refused", "reserve(%u) refused", n); nt = true; } else if (o == DONE && !m.empty()) violate("reserve-accepted", "reserve on a non-empty table"); return true; }
    case 22: name = "copy construct"; { C *d = NULL; maybeArm(0, 0.5, 60); size_t e1 = elemsAlive(), b1 = libBlocks(); o = attempt([&] { d = new C(*c); }); if (o == FAILED) { nt = true; SIM_CHECK(elemsAlive() == e1 && libBlocks() == b1, "leak", "a failed copy leaks"); return true; }
        compare(*d, m, "copy"); lookups(*d, m, "copy"); if (choose(S_WORK, 3, 2)) std::swap(c, d); { Lib l; if (choose(S_WORK, 3, 2)) d->clear(); delete d; } return true; }
    case 23: name = "assign"; { C *d; { Lib l; d = fresh(c); } Model dm; int n = choose(S_WORK, 3, 8); for (int i = 0; i < n; ++i) { Lib l; addOne(*d, 1000 + i, 2000 + i); Unlib u; dm.insert(std::make_pair(1000 + i, 2000 + i)); }
        bool self = choose(S_WORK, 3, 4) == 1; maybeArm(0, 0.5, 60); if (self) { o = attempt([&] { *c = *c; }); } else { o = attempt([&] { *d = *c; }); dm = o == DONE ? m : settle(*d, name, {dm, m}); compare(*d, dm, "assignment"); for (auto &p : dm) { bool f = hasKey(*d, p.first); SIM_CHECK(f, "lookup-wrong", "after assignment: key %d not found", p.first); }
            if (choose(S_WORK, 3, 2) && o == DONE) std::swap(c, d); }
        { Lib l; for (int i = 0; i < n; ++i) addOne(*d, 3000 + i, i); delete d; } return true; }
    case 24: name = "incremental iteration"; { std::set<int> seen, gone; size_t cap = c->capacity(); Model start = m; auto it = c->begin(); unsigned guard = 0; 
        while (it != c->end()) { if (++guard > 3000) violate("iteration-wrong", "incremental iteration does not end"); seen.insert(keyOf(*it)); auto cp = c->begin(); cp = it; auto was = it++; SIM_CHECK(was == cp && was != it, "iteration-wrong", "a copied iterator differs"); ++cp; SIM_CHECK(cp == it, "iteration-wrong", "an assigned iterator continues elsewhere");
            if (it.atStartOfChain() && choose(S_WORK, 4, 3) == 1) { int q = choose(S_WORK, 4, universe); if (m.count(q)) { Lib l; rmOne(*c, q); Unlib u; auto r = m.find(q); gone.insert(q); vector<int> left; Model g = contents(*c, "remove"); m = g; (void)r; (void)left; } else { Lib l; addOne(*c, q, 5); Unlib u; m.insert(std::make_pair(q, 5)); } it.partialReset(); } }
        if (c->capacity() == cap) for (auto &p : start) if (!gone.count(p.first)) SIM_CHECK(seen.count(p.first), "iteration-missed", "incremental iteration never visited key %d", p.first); return true; }
    }
    return false;
}
void addOne(HM &c, int k, int v) { c[Elem(k)] = Elem(v); } void addOne(HU &c, int k, int v) { c.add(KV(k, v)); } void addOne(HT &c, int k, int v) { c.add(KV(k, v)); }
void rmOne(HM &c, int k) { c.remove(Elem(k)); } void rmOne(HU &c, int k) { c.remove(KV(k, 0)); } void rmOne(HT &c, int k) { c.remove(KV(k, 0)); }
bool hasKey(HM &c, int k) { return c.exists(Elem(k)); } bool hasKey(HU &c, int k) { return c.exists(KV(k, 0)); } bool hasKey(HT &c, int k) { return c.lookup(KV(k, 0)) != NULL; }
Model without(const Model &m, int k) { Model r = m; r.erase(k); return r; }
Model with(const Model &m, int k, int v) { Model r = m; r.insert(std::make_pair(k, v)); return r; }
Model minusOne(const Model &m, int k, int v) { Model r = m; for (auto i = r.begin(); i != r.end(); ++i) if (i->first == k && i->second == v) { r.erase(i); break; } return r; }
void released(const Model &m, const char *op) { std::map<int, long> bal; for (auto &p : m) { ++bal[p.first]; ++bal[p.second]; } for (const void *q : life().live) { const Elem *e = (const Elem *)q; if (e->own) --bal[e->v]; } for (auto &p : bal) if (p.first) SIM_CHECK(p.second == 0, "entry-not-released", "after %s: %ld more copies of element %d are alive than are stored", op, -p.second, p.first); }
template<class C, class F> void history(F special, unsigned nspecial) {
    throwingAsserts(); { HM w; Elem e(1); const HM &cw = w; cw.dGet(e); } // the shared default value is not part of any table
    blocks0 = libBlocks(); elems0 = elemsAlive(); nt = touched = false; hmode = choose(S_CFG, 0, 5); universe = range(S_CFG, 1, 1, 40); int ops = range(S_CFG, 2, 1, tierThorough() ? 120 : 50); C *c = NULL; Model m; int next = 100; bool faultedRun = false;
    maybeArm(0, 0.1, 2); Outcome o = attempt([&] { c = fresh((C *)NULL); }); if (o == FAILED) { SIM_CHECK(libBlocks() == blocks0, "leak", "failed construction leaks"); Lib l; c = fresh((C *)NULL); }
    for (int i = 0; i < ops; ++i) {
        unsigned op = chooseW(S_WORK, 0, {30, 1, 1, 2, 2, 1}); if (op == 0) op = choose(S_WORK, 0, nspecial); else op += 19; const char *name = ""; ev("op", op, m.size());
        if (op >= 20) commonOp(c, m, op, name); else special(c, m, op, name, next);
        if (lastFailed || faultedRun) faultedRun = true; else released(m, name); // free space holds no entries
        note("   %s: %zu entries", name, m.size()); size_t cap0 = c->capacity(); compare(*c, m, name); if (lastFailed || i + 1 == ops || choose(S_WORK, 7, 4) == 1) lookups(*c, m, name); lastFailed = false; SIM_CHECK(c->capacity() == cap0, "capacity-wrong", "looking changed the capacity"); if (m.size() > 6) nt = true; touched |= op != 20;
    }
    { Lib l; delete c; }
    SIM_CHECK(elemsAlive() == elems0, "elements-leaked", "%zu elements never destroyed", elemsAlive() - elems0); SIM_CHECK(libBlocks() == blocks0, "leak", "%zu blocks never freed", libBlocks() - blocks0);
    if (nt) nontrivial();
}
void mapOp(HM *&c, Model &m, unsigned op, const char *&name, int &next) {
    int k = choose(S_WORK, 1, universe), v = next++; Elem ke(k), ve(v); bool had = m.count(k); Model before = m; Outcome o = DONE; const HM &cc = *c;
    switch (op) {
    case 0: case 1: case 2: name = "set"; maybeArm(0, 0.3, 30); o = attempt([&] { (*c)[ke] = ve; }); m = with(without(m, k), k, v); if (o == FAILED) { auto old = before.find(k); m = settle(*c, name, {before, m, had ? with(without(before, k), k, old->second) : with(before, k, 0)}); } break;
    case 3: name = "operator[]"; { maybeArm(0, 0.3, 30); int got = -1; o = attempt([&] { got = (*c)[ke].get(); }); Model a = had ? m : with(m, k, 0); if (o == FAILED) m = settle(*c, name, {before, a}); else { m = a; SIM_CHECK(got == m.find(k)->second, "value-wrong", "[%d] gives %d", k, got); } break; }
    case 4: name = "addUnlessExist"; { maybeArm(0, 0.3, 30); bool r = false; o = attempt([&] { r = c->addUnlessExist(ke); }); Model a = had ? m : with(m, k, 0); if (o == FAILED) m = settle(*c, name, {before, a}); else { m = a; SIM_CHECK(r == !had, "result-wrong", "addUnlessExist(%d) = %d", k, r); } break; }
    case 5: case 6: name = "remove"; { bool must = choose(S_WORK, 2, 2), r = false; maybeArm(0, 0.3, 8); o = attempt([&] { r = c->remove(ke, must); }); if (o == FAILED) { m = settle(*c, name, {before, without(m, k)}); break; }
        if (o == FATAL) { SIM_CHECK(must && !had, "valid-use-refused", "remove(%d) refused", k); return; } SIM_CHECK(!(must && !had), "missing-remove-accepted", "remove(%d) of a missing key", k); SIM_CHECK(r == had, "result-wrong", "remove(%d) = %d", k, r); m = without(m, k); break; }
    case 7: name = "erase"; { if (!had) return; maybeArm(0, 0.3, 6); o = attempt([&] { c->erase(c->find(ke)); }); m = o == DONE ? without(m, k) : settle(*c, name, {before, without(m, k)}); break; }
    case 8: name = "erase while iterating"; { int mod = range(S_WORK, 3, 1, 4); vector<int> dead; maybeArm(0, 0.1, 20); o = attempt([&] { for (HM::iterator i = c->begin(); i != c->end(); ) { HM::iterator j = i++; if (j->first.get() % mod == 0) { { Unlib u; dead.push_back(j->first.get()); } c->erase(j); } } }); Model a = m; for (int d : dead) a = without(a, d); if (o == FAILED && !dead.empty()) m = settle(*c, name, {a, with(a, dead.back(), before.find(dead.back())->second)}); else { m = a; for (auto &p : m) SIM_CHECK(o != DONE || p.first % mod != 0, "iteration-missed", "erase loop missed %d", p.first); } break; }
    case 9: name = "get"; { int g = -1; maybeArm(0, 0.3, 4); bool cg = choose(S_WORK, 2, 2); o = attempt([&] { g = cg ? cc.cGet(ke).get() : cc.dGet(ke).get(); }); if (o == FAILED) break; if (o == FATAL) { SIM_CHECK(cg && !had, "valid-use-refused", "get of %d refused", k); break; } SIM_CHECK(!(cg && !had), "missing-get-accepted", "cGet(%d)", k); SIM_CHECK(g == (had ? m.find(k)->second : 0), "value-wrong", "get(%d) = %d", k, g); break; }
    case 10: name = "keys"; { vector<Elem> ks; maybeArm(0, 0.3, 30); o = attempt([&] { ks = cc.keys(); }); if (o == FAILED) break; std::set<int> s; for (auto &e : ks) s.insert(e.get()); SIM_CHECK(ks.size() == m.size() && s.size() == m.size(), "keys-wrong", "%zu keys", ks.size()); for (int x : s) SIM_CHECK(m.count(x), "keys-wrong", "key %d", x); break; }
    case 11: name = "set through own entry"; { if (m.empty()) return; HM::iterator i = c->begin(); int from = keyOf(*i), val = valOf(*i); (void)from; maybeArm(0, 0.2, 30); o = attempt([&] { c->getHashTable().lookup(*i); Elem t(i->second); (*c)[ke] = t; }); Model a = with(without(m, k), k, val); m = o == DONE ? a : settle(*c, name, {before, a, had ? before : with(before, k, 0)}); break; }
    }
    SIM_CHECK(o != FATAL || op == 9, "valid-use-refused", "%s refused", name);
}
void uniqueOp(HU *&c, Model &m, unsigned op, const char *&name, int &next) {
    int k = choose(S_WORK, 1, universe), v = next++; KV e(k, v); bool had = m.count(k); Model before = m; Outcome o = DONE; 
    switch (op) {
    case 0: case 1: name = "add"; { bool r = false; maybeArm(0, 0.3, 30); o = attempt([&] { r = c->add(e); }); Model a = had ? m : with(m, k, v); if (o == FAILED) m = settle(*c, name, {before, a}); else { m = a; SIM_CHECK(r == !had, "result-wrong", "add(%d) = %d", k, r); } break; }
    case 2: name = "addOrReplace"; { bool r = false; maybeArm(0, 0.3, 30); o = attempt([&] { r = c->addOrReplace(e); }); Model a = with(without(m, k), k, v); if (o == FAILED) m = settle(*c, name, {before, a}); else { m = a; SIM_CHECK(r == had, "result-wrong", "addOrReplace(%d) = %d", k, r); } break; }
    case 3: case 4: name = "remove"; { bool must = choose(S_WORK, 2, 2); maybeArm(0, 0.3, 8); o = attempt([&] { c->remove(e, must); }); if (o == FAILED) { m = settle(*c, name, {before, without(m, k)}); break; } if (o == FATAL) { SIM_CHECK(must && !had, "valid-use-refused", "remove(%d) refused", k); return; } SIM_CHECK(!(must && !had), "missing-remove-accepted", "remove(%d)", k); m = without(m, k); break; }
    case 5: name = "remove own entry"; { if (m.empty()) return; HU::iterator i = c->begin(); int q = keyOf(*i); maybeArm(0, 0.2, 8); o = attempt([&] { c->remove(*i); }); m = o == DONE ? without(m, q) : settle(*c, name, {before, without(m, q)}); break; }
    }
    SIM_CHECK(o != FATAL, "valid-use-refused", "%s refused", name);
}
void tableOp(HT *&c, Model &m, unsigned op, const char *&name, int &next) {
    int k = choose(S_WORK, 1, universe), v = next++; KV e(k, v); size_t had = m.count(k); Model before = m; Outcome o = DONE;
    switch (op) {
    case 0: case 1: case 2: name = "add"; { KV *r = NULL; maybeArm(0, 0.3, 30); o = attempt([&] { r = c->add(e); }); Model a = with(m, k, v); if (o == FAILED) m = settle(*c, name, {before, a}); else { m = a; SIM_CHECK(r && keyOf(*r) == k && valOf(*r) == v, "result-wrong", "add(%d,%d)", k, v); } break; }
    case 3: name = "addOrReplace"; { bool r = false; KV *p = NULL; maybeArm(0, 0.3, 30); KV *old = c->lookup(e); int ov = old ? valOf(*old) : 0; o = attempt([&] { p = c->addOrReplace(e, r); }); Model a = with(had ? minusOne(m, k, ov) : m, k, v); if (o == FAILED) m = settle(*c, name, {before, a}); else { m = a; SIM_CHECK(r == (had > 0) && p && valOf(*p) == v, "result-wrong", "addOrReplace(%d) = %d", k, r); } break; }
    case 4: case 5: name = "remove"; { bool must = choose(S_WORK, 2, 2), r = false; KV *old = c->lookup(e); int ov = old ? valOf(*old) : 0; maybeArm(0, 0.3, 8); o = attempt([&] { r = c->remove(e, must); }); Model a = had ? minusOne(m, k, ov) : m; if (o == FAILED) { m = settle(*c, name, {before, a}); break; } if (o == FATAL) { SIM_CHECK(must && !had, "valid-use-refused", "remove(%d) refused", k); return; } SIM_CHECK(!(must && !had), "missing-remove-accepted", "remove(%d)", k); SIM_CHECK(r == (had > 0), "result-wrong", "remove = %d", r); 
        if (had) { Model g = contents(*c, name); bool ok = false; auto q = before.equal_range(k); for (auto i = q.first; i != q.second && !ok; ++i) { Model b = minusOne(before, k, i->second); if (same(g, b)) { a = b; ok = true; } } SIM_CHECK(ok, "contents-wrong", "remove(%d) left%s", k, show(g).c_str()); } m = a; break; }
    case 6: name = "erase"; { if (!had) return; HT::iterator i = c->find(e); int ov = valOf(*i); maybeArm(0, 0.3, 6); o = attempt([&] { c->erase(i); }); Model a = minusOne(m, k, ov); m = o == DONE ? a : settle(*c, name, {before, a}); break; }
    case 7: name = "erase in mid-chain"; { if (m.empty()) return; unsigned skip = choose(S_WORK, 2, m.size()); HT::iterator i = c->begin(); while (skip--) i++; int q = keyOf(*i), ov = valOf(*i); maybeArm(0, 0.3, 6); o = attempt([&] { c->erase(i); }); Model a = minusOne(m, q, ov); m = o == DONE ? a : settle(*c, name, {before, a}); break; }
    case 8: name = "iterate from chain"; { if (m.empty()) return; HT::iterator i = c->begin(); unsigned skip = choose(S_WORK, 2, m.size()); while (skip--) ++i; unsigned n1 = 0, n2 = 0; HT::iterator j = c->begin(i.getCurChain()); SIM_CHECK(j.atStartOfChain() && j.getCurChain() == i.getCurChain(), "iteration-wrong", "begin(chain)"); bool found = false; for (; j != c->end(); ++j) { ++n1; if (j == i) found = true; HT::iterator k = j; ++k; SIM_CHECK(j.atEndOfChain() == k.atStartOfChain(), "iteration-wrong", "end of chain %d", j.getCurChain()); if (n1 > m.size() + 1) violate("iteration-wrong", "does not end"); } (void)n2; SIM_CHECK(found, "iteration-wrong", "starting at its chain misses an entry"); i.reset(); SIM_CHECK(i == c->begin(), "iteration-wrong", "reset"); Stats st; c->chainLengthStats(st); SIM_CHECK(st.count() >= 1 && (size_t)(st.mean() * st.count() + 0.5) == m.size(), "size-wrong", "chains of %g entries in all, there are %zu", st.mean() * st.count(), m.size());
        if (choose(S_WORK, 2, 4) == 1) { HT d(*c); HT::iterator k = d.begin(); if (choose(S_WORK, 2, 2)) d.clear(); else while (d.size()) d.erase(d.begin()); k.reset(); SIM_CHECK(k == d.end(), "iteration-wrong", "reset of an iterator when the table has become empty"); } break; }
    case 9: name = "add own entry"; { if (m.empty()) return; HT::iterator i = c->begin(); int q = keyOf(*i), ov = valOf(*i); maybeArm(0, 0.2, 30); o = attempt([&] { c->add(*i); }); Model a = with(m, q, ov); m = o == DONE ? a : settle(*c, name, {before, a}); break; }
    }
    SIM_CHECK(o != FATAL, "valid-use-refused", "%s refused", name);
}
}
#ifdef ELEM_NO_MOVE
SIM_SCENARIO("H01", map_copyonly, 2) { history<HM>(mapOp, 12); }
SIM_SCENARIO("H01", table_copyonly, 2) { history<HT>(tableOp, 10); }
#elif DBG
SIM_SCENARIO("H01", map_debug, 1) { history<HM>(mapOp, 12); }
SIM_SCENARIO("H01", table_debug, 1) { history<HT>(tableOp, 10); }
#else
SIM_SCENARIO("H01", map, 3) { history<HM>(mapOp, 12); }
SIM_SCENARIO("H01", unique, 2) { history<HU>(uniqueOp, 6); }
SIM_SCENARIO("H01", table, 3) { history<HT>(tableOp, 10); }
// large maps: growth through many sizes, removal of most, reuse of the freed space
SIM_SCENARIO("H01", deep, 1) {
    throwingAsserts(); typedef HashMap<int, long> BM; BM *c = new BM; std::unordered_map<int, long> m; unsigned big = 1u << choose(S_CFG, 0, tierThorough() ? 17 : 13), phases = 1 + choose(S_CFG, 1, 5); uint64_t z = choose(S_CFG, 5, 1u << 30); auto next = [&] { z = z * 6364136223846793005ull + 1442695040888963407ull; return z >> 33; }; long val = 0;
    auto check = [&](const char *op) { const BM &cc = *c; SIM_CHECK(c->size() == m.size() && c->empty() == m.empty(), "size-wrong", "after %s: size %zu, expected %zu", op, (size_t)c->size(), m.size()); size_t n = 0; for (BM::iterator i = c->begin(); i != c->end(); ++i) { if (++n > m.size()) break; auto q = m.find(i->first); SIM_CHECK(q != m.end() && q->second == i->second, "contents-wrong", "after %s: iteration gives %d=%ld", op, i->first, i->second); } SIM_CHECK(n == m.size(), "contents-wrong", "after %s: iteration gives %zu of %zu entries", op, n, m.size());
        vector<int> ks = cc.keys(); std::sort(ks.begin(), ks.end()); SIM_CHECK(ks.size() == m.size() && std::unique(ks.begin(), ks.end()) == ks.end(), "keys-wrong", "after %s: %zu keys of %zu", op, ks.size(), m.size());
        for (auto &p : m) { long *v = c->lookup(p.first); SIM_CHECK(v && *v == p.second, "lookup-wrong", "after %s: key %d", op, p.first); SIM_CHECK(cc.dGet(p.first) == p.second, "lookup-wrong", "after %s: get of key %d", op, p.first); } for (int i = 0; i < 40; ++i) { int k = next(); if (!m.count(k)) { SIM_CHECK(!c->exists(k) && cc.lookup(k) == NULL && cc.dGet(k) == 0 && c->find(k) == c->end(), "lookup-wrong", "after %s: missing key %d found", op, k); SIM_CHECK(c->size() == m.size(), "size-wrong", "a lookup added a key"); } } };
    for (unsigned ph = 0; ph < phases; ++ph) { unsigned w = choose(S_WORK, 0, 6), n = 1 + choose(S_WORK, 1, big), span = 1 + choose(S_WORK, 2, 3 * big); const char *name = ""; ev("phase", w, n);
        switch (w) {
        case 0: case 1: name = "adding"; for (unsigned i = 0; i < n; ++i) { int k = next() % span; (*c)[k] = ++val; m[k] = val; } break;
        case 2: name = "removing"; { vector<int> d; for (auto &p : m) if (next() % span < n) d.push_back(p.first); for (int k : d) { SIM_CHECK(c->remove(k, true), "result-wrong", "remove(%d)", k); m.erase(k); } break; }
        case 3: name = "removing while iterating"; { for (BM::iterator i = c->begin(); i != c->end(); ) { BM::iterator j = i++; if (next() % span < n) { m.erase(j->first); c->erase(j); } } break; }
        case 4: name = "mixing"; for (unsigned i = 0; i < n; ++i) { int k = next() % span; if (next() % 2) { bool r = c->remove(k, false); SIM_CHECK(r == (m.erase(k) > 0), "result-wrong", "remove(%d) = %d", k, r); } else { (*c)[k] = ++val; m[k] = val; } } break;
        case 5: name = "copying"; { BM *d = new BM(*c); if (n % 2) { delete c; c = d; } else { d->clear(); *d = *c; c->clear(); delete c; c = d; } break; } }
        check(name); stateHash(m.size()); }
    delete c; if (big > 64) nontrivial();
}
// functions that have a state, which goes with the table
unsigned saltNow; struct SHash { unsigned salt; SHash() : salt(saltNow) { } uint32_t operator()(const int &k) const { return lintel::hashBytes(&k, sizeof k, salt); } }; struct SEq { unsigned salt; SEq() : salt(saltNow) { } bool operator()(const int &a, const int &b) const { return salt % 2 ? a == b : a / 2 == b / 2; } };
struct SHash2 { unsigned salt; SHash2() : salt(saltNow) { } uint32_t operator()(const int &k) const { int x = salt % 2 ? k : k / 2; return lintel::hashBytes(&x, sizeof x, salt); } };
SIM_SCENARIO("H01", stateful, 1) {
    throwingAsserts(); typedef HashTable<int, SHash2, SEq> ST; saltNow = choose(S_CFG, 0, 100); ST a; std::set<int> m; unsigned s0 = saltNow, n = range(S_CFG, 1, 1, 30); auto norm = [&](int k) { return s0 % 2 ? k : k / 2; };
    for (unsigned i = 0; i < n; ++i) { int k = choose(S_WORK, 0, 60); bool r; a.addOrReplace(k, r); SIM_CHECK(r == !m.insert(norm(k)).second, "result-wrong", "addOrReplace(%d)", k); }
    saltNow = choose(S_CFG, 2, 100); ST b; bool r; for (unsigned i = 0, e = choose(S_CFG, 3, 20); i < e; ++i) b.addOrReplace(choose(S_WORK, 0, 60), r); ST c(a); b = a; saltNow = choose(S_CFG, 4, 100);
    for (int w = 0; w < 3; ++w) { ST &t = w == 0 ? a : w == 1 ? b : c; SIM_CHECK(t.size() == m.size(), "size-wrong", "table %d", w); for (int k = 0; k < 60; ++k) SIM_CHECK((t.lookup(k) != NULL) == (m.count(norm(k)) > 0), "lookup-wrong", "table %d (0: original, 1: assigned, 2: copied): key %d", w, k); for (int i = 0; i < 20; ++i) { int k = 100 + choose(S_WORK, 0, 200); t.addOrReplace(k, r); SIM_CHECK(t.lookup(k), "lookup-wrong", "table %d: key %d just added", w, k); } }
    nontrivial();
}
#endif

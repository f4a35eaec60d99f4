// H02: rotating map against two std::maps
#ifndef DBG
#define DBG 0
#endif
#include "elem.hpp"
#include <unordered_map>
#include <Lintel/RotatingHashMap.hpp>
namespace {
unsigned hmode;
struct EHash { uint32_t operator()(const Elem &e) const { int v = e.get(); return hmode == 0 ? lintel::hashBytes(&v, sizeof v, 17) : hmode == 1 ? v % 3 : 7; } };
typedef RotatingHashMap<Elem, Elem, EHash> RM; typedef std::map<int, int> M;
struct St { RM *r; M rec, old; };
string show(const M &m) { string s; for (auto &p : m) s += " " + std::to_string(p.first) + "=" + std::to_string(p.second); return s; }
bool nt; int universe;
void getKV(M &m, const Elem &k, Elem &v) { SIM_CHECK(m.insert(std::make_pair(k.get(), v.get())).second, "entry-twice", "key %d is stored or handed out twice", k.get()); }
// reads the two generations without touching them
void read(RM &r, M &rec, M &old) { M all; r.walk([&](const Elem &k, Elem &v) { getKV(all, k, v); }); for (auto &p : all) { Elem e(p.first); bool a = r.exists_recent(e), b = r.exists_old(e); SIM_CHECK(a != b, "generations-wrong", "key %d: recent %d, old %d", p.first, a, b); (a ? rec : old).insert(p); } }
void compare(St &s, const char *op) {
    M rec, old; read(*s.r, rec, old);
    SIM_CHECK(rec == s.rec && old == s.old, "contents-wrong", "after %s: recent%s old%s, expected recent%s old%s", op, show(rec).c_str(), show(old).c_str(), show(s.rec).c_str(), show(s.old).c_str());
    SIM_CHECK(s.r->size_recent() == s.rec.size() && s.r->size_old() == s.old.size() && s.r->size() == s.rec.size() + s.old.size() && s.r->empty() == (s.rec.empty() && s.old.empty()), "size-wrong", "after %s: sizes %zu %zu %zu, expected %zu %zu", op, s.r->size_recent(), s.r->size_old(), s.r->size(), s.rec.size(), s.old.size());
    for (int k = 0; k < universe; ++k) { Elem e(k); bool w = s.rec.count(k) || s.old.count(k); SIM_CHECK(s.r->existsNoPromote(e) == w, "exists-wrong", "after %s: key %d existsNoPromote %d", op, k, !w); }
    stateHash(s.rec.size() * 64 + s.old.size());
}
typedef std::pair<M, M> P2;
void settle(St &s, const char *op, std::initializer_list<P2> allowed) { nt = true; M rec, old; read(*s.r, rec, old); for (auto &p : allowed) if (p.first == rec && p.second == old) { s.rec = rec; s.old = old; return; } violate("torn-by-failure", "a failed %s left recent%s old%s; before: recent%s old%s", op, show(rec).c_str(), show(old).c_str(), show(s.rec).c_str(), show(s.old).c_str()); }
P2 promoted(St &s, int k) { P2 p(s.rec, s.old); if (!p.first.count(k) && p.second.count(k)) { p.first[k] = p.second[k]; p.second.erase(k); } return p; }
void run() {
    throwingAsserts(); size_t blocks0 = libBlocks(), elems0 = elemsAlive(); nt = false; hmode = choose(S_CFG, 0, 3); universe = range(S_CFG, 1, 1, 16); int ops = range(S_CFG, 2, 1, tierThorough() ? 140 : 70), next = 100; St s; s.r = NULL;
    maybeArm(0, 0.2, 6); Outcome o = attempt([&] { s.r = new RM; }); if (o == FAILED) { nt = true; SIM_CHECK(libBlocks() == blocks0, "leak", "failed construction leaks %zu blocks", libBlocks() - blocks0); Lib l; s.r = new RM; }
    for (int i = 0; i < ops; ++i) {
        unsigned op = chooseW(S_WORK, 0, {8, 5, 3, 3, 2, 4, 3, 1, 1, 2}); int k = choose(S_WORK, 1, universe), v = next++; Elem ke(k), ve(v); const char *name = ""; ev("op", op, k); P2 b(s.rec, s.old); bool had = s.rec.count(k) || s.old.count(k);
        switch (op) {
        case 0: { name = "set"; maybeArm(0, 0.25, 40); o = attempt([&] { (*s.r)[ke] = ve; }); P2 p = promoted(s, k), d = p, e = p; if (!had) d.first[k] = 0; e.first[k] = v; if (o == DONE) { s.rec = e.first; s.old = e.second; } else settle(s, name, {b, p, d, e}); break; }
        case 1: { name = "lookup"; int g = -1; bool f = false; maybeArm(0, 0.25, 30); o = attempt([&] { Elem *q = s.r->lookup(ke); f = q != NULL; if (q) g = q->get(); }); P2 p = promoted(s, k); if (o == DONE) { s.rec = p.first; s.old = p.second; SIM_CHECK(f == had && (!f || g == s.rec[k]), "lookup-wrong", "key %d found %d value %d", k, f, g); } else settle(s, name, {b, p}); break; }
        case 2: { name = "exists"; bool f = false; maybeArm(0, 0.25, 30); o = attempt([&] { f = s.r->exists(ke); }); P2 p = promoted(s, k); if (o == DONE) { s.rec = p.first; s.old = p.second; SIM_CHECK(f == had, "exists-wrong", "key %d exists %d", k, f); } else settle(s, name, {b, p}); break; }
        case 3: { name = "remove"; bool must = choose(S_WORK, 2, 2), r = false; maybeArm(0, 0.25, 14); o = attempt([&] { r = s.r->remove(ke, must); }); P2 p = b; p.first.erase(k); p.second.erase(k); if (o == FAILED) settle(s, name, {b, p}); else if (o == FATAL) SIM_CHECK(must && !had, "valid-use-refused", "remove(%d) refused", k); else { SIM_CHECK(had || !must, "missing-remove-accepted", "remove(%d)", k); SIM_CHECK(r == had, "result-wrong", "remove(%d) = %d", k, r); s.rec = p.first; s.old = p.second; } o = DONE; break; }
        case 4: { name = "rotate"; maybeArm(0, 0.3, 4); o = attempt([&] { s.r->rotate(); }); P2 a(M(), s.rec); if (o == DONE) { s.rec = a.first; s.old = a.second; } else settle(s, name, {b, a}); break; }
        case 5: case 6: { name = op == 5 ? "rotate(fn)" : "flushRotate(fn)"; M got; vector<std::pair<int, int> > seq; bool cbFailed = false; int change = choose(S_WORK, 3, 4) == 1; maybeArm(0, 0.3, 24);
            auto fn = [&](const Elem &kk, Elem &vv) { { Unlib u; seq.push_back(std::make_pair(kk.get(), vv.get())); } if (faultPoint("callback-fails")) { cbFailed = true; throw CopyFail(); } if (change) { Unlib u; Elem n(-7); std::swap(vv.v, n.v); std::swap(vv.own, n.own); std::swap(vv.v, n.v); std::swap(vv.own, n.own); } };
            if (op == 5) o = attempt([&] { s.r->rotate(fn); }); else o = attempt([&] { s.r->flushRotate(fn); });
            size_t handed = seq.size() - cbFailed; M first = s.old, second = s.rec; 
            for (size_t q = 0; q < seq.size(); ++q) { M &src = q < s.old.size() ? first : second; auto it = src.find(seq[q].first); SIM_CHECK((op == 6 || q < s.old.size()) && it != src.end() && it->second == seq[q].second, "handed-wrong", "%s handed out %d=%d, which is not due", name, seq[q].first, seq[q].second); src.erase(it); }
            P2 a(M(), s.rec), z; size_t due = s.old.size() + (op == 6 ? s.rec.size() : 0);
            if (o == DONE) { SIM_CHECK(handed == due, "not-handed", "%s handed out %zu of %zu entries", name, handed, due); if (op == 5) { s.rec.clear(); s.old = a.second; } else { s.rec.clear(); s.old.clear(); } }
            else if (op == 5) { bool memory = !cbFailed; size_t h = handed; size_t n = s.old.size(); if (h == n && n && memory) { settle(s, name, {a}); } else settle(s, name, {b, a}); SIM_CHECK(s.old == b.second || h == n, "lost-entries", "a failed rotation dropped entries it had not handed out"); if (memory) SIM_CHECK(s.old != b.second || n == 0 || h == 0, "handed-again", "memory ran out after %zu entries had been handed out: they will be handed out again", h); }
            else { settle(s, name, {b, a, z}); size_t n = b.second.size(); if (s.old == b.second && s.rec == b.first && !cbFailed) SIM_CHECK(handed == 0 || n + b.first.size() == 0, "handed-again", "memory ran out after %zu entries had been handed out: they will be handed out again", handed); else if (s.rec == M() && s.old == b.first && b.first.size()) SIM_CHECK(handed >= n && (cbFailed || handed == n), "handed-again", "%zu handed", handed); }
            nt = true; break; }
        case 7: { name = "flushRotate"; maybeArm(0, 0.3, 8); o = attempt([&] { s.r->flushRotate(); }); P2 a(M(), s.rec), z; if (o == DONE) { s.rec.clear(); s.old.clear(); } else settle(s, name, {b, a, z}); break; }
        case 8: { name = "walk"; M got; maybeArm(0, 0.3, 12); bool cbFailed = false; int fin = choose(S_WORK, 3, 2); o = attempt([&] { s.r->walk([&](const Elem &kk, Elem &vv) { { Unlib u; getKV(got, kk, vv); if (fin) { Elem n(vv.v + 1000); std::swap(vv.v, n.v); std::swap(vv.own, n.own); } } if (faultPoint("callback-fails")) { cbFailed = true; throw CopyFail(); } }); });
            M all = s.rec; all.insert(s.old.begin(), s.old.end()); if (o == DONE) SIM_CHECK(got == all, "walk-wrong", "walk saw%s", show(got).c_str()); for (auto &p : got) { SIM_CHECK(all.count(p.first) && all[p.first] == p.second, "walk-wrong", "walk saw %d=%d", p.first, p.second); if (fin) { if (s.rec.count(p.first)) s.rec[p.first] += 1000; else s.old[p.first] += 1000; } } (void)cbFailed; break; }
        case 9: { name = "existsNoPromote"; bool f = false; maybeArm(0, 0.25, 6); o = attempt([&] { f = s.r->existsNoPromote(ke); }); if (o == DONE) SIM_CHECK(f == had, "exists-wrong", "key %d", k); break; }
        }
        SIM_CHECK(o != FATAL, "valid-use-refused", "%s refused", name); note("   %s(%d): recent%s old%s", name, k, show(s.rec).c_str(), show(s.old).c_str()); compare(s, name);
        if (i % 8 == 0) SIM_CHECK(s.r->memoryUsage() > 0, "memory", "memoryUsage");
    }
    { Lib l; delete s.r; } SIM_CHECK(elemsAlive() == elems0, "elements-leaked", "%zu elements never destroyed", elemsAlive() - elems0); SIM_CHECK(libBlocks() == blocks0, "leak", "%zu blocks never freed", libBlocks() - blocks0); if (nt) nontrivial();
}
}
#ifdef ELEM_NO_MOVE
SIM_SCENARIO("H02", history_copyonly, 1) { run(); }
#elif DBG
SIM_SCENARIO("H02", history_debug, 1) { run(); }
#else
SIM_SCENARIO("H02", history, 2) { run(); }
// many entries through many rotations
SIM_SCENARIO("H02", deep, 1) {
    throwingAsserts(); typedef RotatingHashMap<int, long> RM; RM r; std::unordered_map<int, long> rec, old, seen; unsigned big = 1u << choose(S_CFG, 0, tierThorough() ? 16 : 12), phases = 1 + choose(S_CFG, 1, 12), span = 1 + choose(S_CFG, 2, 3 * big); uint64_t z = choose(S_CFG, 5, 1u << 30); auto next = [&] { z = z * 6364136223846793005ull + 1442695040888963407ull; return z >> 33; }; long val = 0;
    auto put = [&](int k) { r[k] = ++val; old.erase(k); rec[k] = val; }; auto turn = [&] { seen.clear(); unsigned twice = 0; r.rotate([&](const int &k, long &v) { twice += !seen.insert(std::make_pair(k, v)).second; }); SIM_CHECK(!twice && seen == old, "handed-out-wrong", "rotation handed out %zu entries (%u twice), expected %zu", seen.size(), twice, old.size()); old.swap(rec); rec.clear(); };
    for (unsigned ph = 0; ph < phases; ++ph) { unsigned w = choose(S_WORK, 0, 6), n = 1 + choose(S_WORK, 1, big); ev("phase", w, n);
        for (unsigned i = 0; w < 4 && i < n; ++i) { int k = next() % span; switch (w) { case 0: put(k); break;
            case 1: { long *v = r.lookup(k); auto p = rec.find(k); if (p == rec.end()) { auto q = old.find(k); if (q != old.end()) { p = rec.insert(*q).first; old.erase(q); } } SIM_CHECK((v != NULL) == (p != rec.end()) && (!v || *v == p->second), "lookup-wrong", "key %d", k); break; }
            case 2: { bool h = rec.erase(k) + old.erase(k); SIM_CHECK(r.remove(k, false) == h, "result-wrong", "remove(%d)", k); break; }
            default: SIM_CHECK(r.existsNoPromote(k) == (rec.count(k) || old.count(k)), "lookup-wrong", "exists(%d)", k); if (next() % 2) put(k); } }
        if (w == 4) turn(); if (w == 5) { if (next() % 2) r.rotate(); else { turn(); continue; } old.swap(rec); rec.clear(); }
        SIM_CHECK(r.size_recent() == rec.size() && r.size_old() == old.size() && r.size() == rec.size() + old.size(), "size-wrong", "sizes %zu and %zu, expected %zu and %zu", (size_t)r.size_recent(), (size_t)r.size_old(), rec.size(), old.size()); seen.clear(); r.walk([&](const int &k, long &v) { seen[k] = v; }); SIM_CHECK(seen.size() == rec.size() + old.size(), "walk-wrong", "walked over %zu of %zu", seen.size(), rec.size() + old.size()); for (auto &p : seen) { auto q = rec.find(p.first); SIM_CHECK(q != rec.end() ? q->second == p.second : old.count(p.first) && old[p.first] == p.second, "walk-wrong", "walked over %d=%ld", p.first, p.second); } stateHash(seen.size()); }
    turn(); turn(); SIM_CHECK(r.empty(), "size-wrong", "%zu entries left after two rotations", (size_t)r.size()); if (big > 64) nontrivial();
}
#endif

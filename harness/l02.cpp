// L02: category ids and debug levels
#include "log.hpp"
#include <functional>
struct Ev { int kind; /*0 set 1 read*/ string pat; int level; uint64_t s, e; int sub; int call; bool result; int thr; };
static vector<Ev> hist; static std::map<string, std::set<unsigned> > ids; static int calls, warnings; 
static bool matches(const string &pat, const string &cat) { if (!pat.empty() && pat[pat.size() - 1] == '*') return cat.compare(0, pat.size() - 1, pat, 0, pat.size() - 1) == 0; return pat == cat; }
#define L64 "a234567890123456789012345678901234567890123456789012345678901234"
static const char *names[] = {"a", "ab", "abc", "b", "b*c", "", "ax", "b*d", "*b", L64 L64 "1", L64 L64 "2"}; static const int nnames = 11;
static const int levels[] = {0, 1, 2, 3, 4, 9, 10, 100, 127, 128, 254, 255};
static int pickLevel(int t) { return levels[choose(S_WORK, t, chance(S_WORK, t, 0.3) ? 12 : 5)]; }
static const char *pats[] = {"a*", "ab*", "*", "b*", "b*c*", "abc*", "c*", L64 "*"};
static string catName(int t) { return names[choose(S_WORK, t, choose(S_WORK, t, 3) == 1 ? nnames : 7)]; }
static string setName(int t) { if (choose(S_WORK, t, 2)) return pats[choose(S_WORK, t, 8)]; return catName(t); }
static void idSeen(const string &n, unsigned id) { NoPreempt np; ids[n].insert(id); }
// may the set/read operations on one category be ordered into a correct sequence?
static bool linear(const vector<Ev> &ops, vector<char> &done, int cur, size_t left, std::set<std::pair<vector<char>, int> > &seen) {
    if (left == 0) return true;
    if (!seen.insert(std::make_pair(done, cur)).second) return false;
    for (size_t i = 0; i < ops.size(); ++i) if (!done[i]) {
        bool first = true; for (size_t j = 0; j < ops.size() && first; ++j) if (!done[j] && j != i && (ops[j].e < ops[i].s || (ops[j].call == ops[i].call && ops[j].sub < ops[i].sub))) first = false;
        if (!first) continue;
        int nx = cur;
        if (ops[i].kind == 0) nx = ops[i].level; 
        else if (ops[i].kind == 1) { if ((cur >= ops[i].level) != ops[i].result) continue; }
        else if (cur != ops[i].level) continue;
        done[i] = 1; bool ok = linear(ops, done, nx, left - 1, seen); done[i] = 0; if (ok) return true;
    }
    return false;
}
static void doOp(int t, std::map<string, LintelLog::Category *> &mine) {
    int call; uint64_t s; { NoPreempt np; call = calls++; s = eventSeq(); }
    auto put = [&](int kind, const string &pat, int level, int sub, bool res) { NoPreempt np; Ev e; e.kind = kind; e.pat = pat; e.level = level; e.s = s; e.e = eventSeq(); e.sub = sub; e.call = call; e.result = res; e.thr = t; hist.push_back(e); ev(kind ? "read" : "set", call, level, res); note("   op %d thr %d: %s \"%s\" level %d -> %d", call, t, kind == 0 ? "set" : kind == 1 ? "wouldDebug" : "getLevel", pat.c_str(), level, res); };
    switch (choose(S_WORK, t, 9)) {
    case 0: case 1: { string p = setName(t); int l = pickLevel(t); LintelLog::setDebugLevel(p, l); put(0, p, l, 0, false); break; }
    case 2: { int k = 1 + choose(S_WORK, t, 3); string d; vector<std::pair<string, int> > v; for (int i = 0; i < k; ++i) { string p = setName(t); if (p.empty()) p = "a"; int l = choose(S_WORK, t, 6); if (l < 5) l = pickLevel(t); else l = -1; if (i) d += ","; d += p; if (l >= 0) d += "=" + std::to_string(l); else l = 1; v.push_back(std::make_pair(p, l)); }
        LintelLog::parseDebugString(d); for (int i = 0; i < k; ++i) put(0, v[i].first, v[i].second, i, false); break; }
    case 3: { string c = catName(t); int l = pickLevel(t); bool r = LintelLog::wouldDebug(c, l); put(1, c, l, 0, r); break; }
    case 4: { string c = catName(t); LintelLog::Category x(c); idSeen(c, x.id); if (!mine[c]) mine[c] = new LintelLog::Category(x); break; }
    case 5: case 6: if (mine.empty()) break; { auto it = mine.begin(); int k = choose(S_WORK, t, mine.size()); while (k--) ++it; if (!it->second) break; int l = pickLevel(t);
        if (choose(S_WORK, t, 2)) { bool r = LintelLog::wouldDebug(*it->second, l); put(1, it->first, l, 0, r); } else { int g = LintelLog::getDebugLevel(*it->second); put(2, it->first, g, 0, true); } break; }
    case 8: { static const char *bad[] = {"a=1=2", "b=256", "ab=257", "a=65536", "a=x", "a=1x", "b=4294967297"}; string d = bad[choose(S_WORK, t, 7)]; // refused, and changes nothing
        SIM_CHECK(fatal([&] { LintelLog::parseDebugString(d); }), "bad-string-accepted", "\"%s\" accepted", d.c_str()); break; }
    case 7: { vector<string> v; for (int i = 0; i < 2; ++i) v.push_back(catName(t)); LintelLog::setKnownCategories(v); break; }
    }
}
SIM_SCENARIO("L02", levels, 4) {
    throwingAsserts(); thrBegin(); setBudget(3000000);
    int n = range(S_CFG, 0, 1, 4), k = range(S_CFG, 1, 1, n > 2 ? 4 : 7);
    bool env = choose(S_CFG, 2, 4) == 1; if (env) { setenv("LINTEL_LOG_DEBUG", "ab*=2,b", 1); uint64_t s = eventSeq(); LintelLog::parseEnv(); Ev e; e.kind = 0; e.s = s; e.e = eventSeq(); e.call = calls++; e.result = false; e.thr = 0; e.pat = "ab*"; e.level = 2; e.sub = 0; hist.push_back(e); e.pat = "b"; e.level = 1; e.sub = 1; hist.push_back(e); }
    for (int t = 0; t < n; ++t) spawn([&] { std::map<string, LintelLog::Category *> mine; int me = tid(); for (int i = 0; i < k; ++i) doOp(me, mine); });
    joinAll();
    // everything now quiet: every name has one id, different names different ids, final reads
    for (const char *c : names) { LintelLog::Category x(c); idSeen(c, x.id); Ev e; e.kind = 2; e.pat = c; e.s = eventSeq(); e.level = LintelLog::getDebugLevel(x); e.e = eventSeq(); e.sub = 0; e.call = calls++; e.result = true; hist.push_back(e); }
    std::set<unsigned> all; unsigned mx = 0; for (auto &p : ids) { SIM_CHECK(p.second.size() == 1, "two-ids", "category \"%s\" has %zu ids", p.first.c_str(), p.second.size()); SIM_CHECK(all.insert(*p.second.begin()).second, "shared-id", "category \"%s\" shares its id", p.first.c_str()); mx = std::max(mx, *p.second.begin()); }
    for (const char *c : names) { vector<Ev> ops; for (Ev &e : hist) if (e.kind == 0 ? matches(e.pat, c) : e.pat == c) ops.push_back(e);
        vector<char> done(ops.size(), 0); std::set<std::pair<vector<char>, int> > seen;
        if (!linear(ops, done, 0, ops.size(), seen)) { string h; for (Ev &e : ops) { char b[120]; snprintf(b, sizeof b, " [%llu-%llu]%s(%s,%d)%s", (unsigned long long)e.s, (unsigned long long)e.e, e.kind == 0 ? "set" : e.kind == 1 ? "would" : "level", e.pat.c_str(), e.level, e.kind == 1 ? (e.result ? "=yes" : "=no") : ""); h += b; } violate("level-wrong", "no order of the settings explains what was read for category \"%s\":%s", c, h.c_str()); } }
    // the list of known categories names each registered one once, sorted
    vector<string> got; LintelLog::addAppender([&](const string &m, LintelLog::LogType) { got.push_back(m); }); LintelLog::setDebugLevel("help", 1); LintelLog::debugMessagesInitial();
    std::set<string> want; for (const char *c : names) want.insert(c); want.insert("help"); string w; for (Ev &e : hist) if (e.kind == 0 && (e.pat.empty() || e.pat[e.pat.size() - 1] != '*')) want.insert(e.pat); for (auto &x : want) w += (w.empty() && x == *want.begin() ? "" : ", ") + x;
    SIM_CHECK(got.size() == 1 && got[0] == "known debugging options: " + w, "known-list", "got \"%s\", want \"%s\"", got.empty() ? "" : got[0].c_str(), w.c_str());
    if (n > 1) nontrivial(); stateHash(hist.size()); for (auto &p : ids) stateHash(*p.second.begin()); thrEnd();
}
SIM_SCENARIO("L02", capacity, 1) {
    throwingAsserts(); thrBegin(); setBudget(3000000);
    unsigned cap = 4000; if (choose(S_CFG, 0, 3) == 1) { cap = 4000 + choose(S_CFG, 1, 1500); LintelLog::reserveCategories(cap); }
    LintelLog::addAppender([&](const string &m, LintelLog::LogType t) { NoPreempt np; SIM_CHECK(t == LintelLog::Warn && m.find("close to running out of reserved categories") == 0, "stray-message", "%s", m.c_str()); ++warnings; ev("warning", warnings); });
    bool end = choose(S_CFG, 2, 2); unsigned fill = end ? cap - choose(S_CFG, 3, 6) : cap * 4 / 5 - 3 - choose(S_CFG, 3, 3);
    { NoPreempt np; for (unsigned i = 0; i < fill; ++i) { LintelLog::Category c("f" + std::to_string(i)); SIM_CHECK(c.id == i, "not-dense", "category %u got id %u", i, c.id); } }
    if (!end) SIM_CHECK(warnings == 0, "early-warning", "warned with %u of %u used", fill, cap); else SIM_CHECK(warnings == 1, "no-warning", "%d warnings with %u of %u used", warnings, fill, cap);
    int n = range(S_CFG, 4, 2, 4), fatals = 0; std::map<string, std::set<unsigned> > got;
    for (int t = 0; t < n; ++t) spawn([&, t] { for (int i = 0; i < 4; ++i) { string nm = choose(S_WORK, tid(), 3) == 1 ? "common" : "n" + std::to_string(t) + "." + std::to_string(i); unsigned id = 0; bool f = fatal([&] { if (choose(S_WORK, tid(), 3) == 1) LintelLog::setDebugLevel(nm, 1); LintelLog::Category c(nm); id = c.id; }); NoPreempt np; if (f) ++fatals; else got[nm].insert(id); } });
    joinAll(); std::set<unsigned> all; for (auto &p : got) { SIM_CHECK(p.second.size() == 1, "two-ids", "%s", p.first.c_str()); unsigned id = *p.second.begin(); SIM_CHECK(id >= fill && id < cap, "id-range", "id %u, reserved %u", id, cap); SIM_CHECK(all.insert(id).second, "shared-id", "%u", id); }
    SIM_CHECK(all.empty() || *all.rbegin() == fill + all.size() - 1, "not-dense", "ids after the fill are not consecutive");
    if (fill + all.size() < cap) SIM_CHECK(fatals == 0, "refused-early", "refused with %zu of %u used", fill + all.size(), cap); else { probe("capacity-exhausted"); // and the refused names stay refused, while known ones keep working
        for (int k = 0; k < 3; ++k) { int t = choose(S_WORK, 41, n), i = choose(S_WORK, 41, 4); string nm = "n" + std::to_string(t) + "." + std::to_string(i); if (fill + all.size() < cap) break; bool known = got.count(nm); unsigned id = 0; bool f = fatal([&] { LintelLog::Category c(nm); id = c.id; }); SIM_CHECK(f != known, known ? "known-refused" : "refused-then-accepted", "category \"%s\" id %u of %u", nm.c_str(), id, cap); } }
    bool past = end || (fill + all.size() - 1) * 5 / 4 >= cap; SIM_CHECK(past ? warnings == 1 : warnings == 0, "warning-count", "%d warnings after %zu of %u categories", warnings, fill + all.size(), cap);
    // the old ones are intact
    for (unsigned i = 0; i < 3; ++i) { unsigned k = choose(S_WORK, 40, fill); LintelLog::Category c("f" + std::to_string(k)); SIM_CHECK(c.id == k, "id-changed", "category f%u now has id %u", k, c.id); }
    nontrivial(); stateHash(all.size()); stateHash(fatals); thrEnd();
}

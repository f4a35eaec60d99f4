// N01: interned strings
#include "elem.hpp"
#include <sstream>
#include <Lintel/ConstantString.hpp>
namespace {
string text(const string &x) { string r; char b[8]; for (unsigned char c : x) { if (r.size() > 40) return r + "...(" + std::to_string(x.size()) + ")"; if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\%o", c); r += b; } } return r; }
// short strings that differ in one place, contain zero bytes, are prefixes of each other, or are long
string draw(unsigned mode) {
    static const char alpha[] = {'a', 'b', 0, (char)255, ' '}; size_t n = choose(S_WORK, 10, 6) == 0 ? 0 : mode == 2 && choose(S_WORK, 11, 2) ? range(S_WORK, 12, 1500, 8150) : choose(S_WORK, 13, mode ? 12 : 4) + 1; string s;
    if (n > 100) { s.assign(n, 'x'); for (int i = 0; i < 3; ++i) s[choose(S_WORK, 14, n)] = (char)choose(S_WORK, 15, 256); } else for (size_t i = 0; i < n; ++i) s += alpha[choose(S_WORK, 14, sizeof alpha)]; return s; }
SIM_SCENARIO("N01", strings, 2) {
    throwingAsserts(); std::map<string, const char *> known; std::map<const char *, string> back; vector<ConstantString> keep; unsigned mode = choose(S_CFG, 0, 3); int ops = range(S_CFG, 1, 1, tierThorough() ? 600 : mode == 2 ? 300 : 120); bool nt = false; int fails = 0;
    for (int i = 0; i < ops; ++i) {
        string s = draw(mode); int how = choose(S_WORK, 1, 16); ConstantString *c = NULL; bool tooLong = how == 15; if (tooLong) s.assign(range(S_WORK, 2, 9000, 700000), 'L'); bool cstr = how < 4 && s.find('\0') == string::npos; if (how == 14 && !known.empty()) { auto it = known.begin(); std::advance(it, choose(S_WORK, 3, known.size())); s = it->first; }
        ev("intern", s.size()); alignas(ConstantString) char room[sizeof(ConstantString)]; maybeArm(0, 0.25, 8);
        Outcome o = attempt([&] { c = s.empty() && how % 2 ? new (room) ConstantString() : cstr ? new (room) ConstantString(s.c_str()) : how < 9 ? new (room) ConstantString(s) : new (room) ConstantString((const void *)s.data(), s.size()); });
        note("   intern '%s' -> %d", text(s).c_str(), o);
        if (o == FATAL) { SIM_CHECK(tooLong || s.size() > 8000, "valid-use-refused", "a string of %zu bytes refused", s.size()); probe("over-long-refused"); nt = true; }
        else if (o == FAILED) { nt = true; ++fails; }
        else { SIM_CHECK(c->size() == s.size() && c->str() == s && c->c_str()[s.size()] == 0 && c->data() == c->c_str() && c->empty() == s.empty(), "text-wrong", "interned '%s', got '%s'", text(s).c_str(), text(c->str()).c_str());
            const char *p = c->c_str(); auto it = known.find(s); if (it != known.end()) SIM_CHECK(it->second == p, "interned-twice", "'%s' has two stored copies", text(s).c_str()); else { SIM_CHECK(!back.count(p), "shared-storage", "'%s' and '%s' share their storage", text(s).c_str(), text(back[p]).c_str()); known[s] = p; back[p] = s; }
            ConstantString d(*c), e; e = d; SIM_CHECK(e.c_str() == p && d == *c && !(e != *c) && d.hash() == c->hash(), "copy-differs", "a copy of '%s' differs", text(s).c_str()); keep.push_back(d); if (i && choose(S_WORK, 4, 2)) { ConstantString &x = keep[choose(S_WORK, 5, keep.size())]; SIM_CHECK((x == *c) == (x.str() == s) && (x != *c) == (x.str() != s), "equality-wrong", "'%s' and '%s'", text(x.str()).c_str(), text(s).c_str());
                auto sg = [](int v) { return (v > 0) - (v < 0); }; int want = sg(x.str().compare(s)); bool nul = s.find('\0') != string::npos; // the order is that of the texts
                SIM_CHECK(sg(x.compare(*c)) == want && sg(x.compare(s)) == want && sg(c->compare(x)) == -want && (x < *c) == (want < 0) && (x <= *c) == (want <= 0) && (x > *c) == (want > 0) && (x >= *c) == (want >= 0) && (x != s) == (want != 0) && (nul || (x != s.c_str()) == (want != 0)), "order-wrong", "'%s' and '%s'", text(x.str()).c_str(), text(s).c_str());
                if (i % 4 == 0) { std::ostringstream out; out << x; SIM_CHECK(out.str() == x.str(), "output-wrong", "'%s' written as '%s'", text(x.str()).c_str(), text(out.str()).c_str()); string whole = x.str(); for (size_t q = 0; q < whole.size(); ++q) SIM_CHECK(x[q] == whole[q], "text-wrong", "character %zu of '%s'", q, text(x.str()).c_str()); } } }
        if (i % 16 == 15 || o != DONE) for (auto &k : known) SIM_CHECK(string(k.second, k.first.size()) == k.first && k.second[k.first.size()] == 0 && ((const uint32_t *)k.second)[-1] == k.first.size(), "string-changed", "'%s' has become '%s'", text(k.first).c_str(), text(string(k.second, k.first.size())).c_str());
        stateHash(known.size());
    }
    // every string found again afterwards
    for (auto &k : known) { ConstantString c(k.first); SIM_CHECK(c.c_str() == k.second && c.str() == k.first, "interned-twice", "'%s' has two stored copies or changed", text(k.first).c_str()); }
    if (nt || known.size() > 60) nontrivial();
}
}

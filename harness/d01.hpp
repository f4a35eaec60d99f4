// D01: deque against std::deque
#ifndef DBG
#define DBG 0
#define SCN(x) x
#endif
#include "elem.hpp"
#include <Lintel/Deque.hpp>
namespace {
typedef Deque<Elem> DQ;
struct State { DQ *d; std::deque<int> m; size_t cap; };
static string show(const vector<int> &v) { string s; for (int x : v) s += " " + std::to_string(x); return s; }
static vector<int> contents(State &s) {
    vector<int> got; size_t n = s.d->size(); if (n > 100000) violate("size-wrong", "size %zu", n);
    if (choose(S_WORK, 1, 2)) for (size_t i = 0; i < n; ++i) got.push_back(s.d->at(i).get());
    else { size_t k = 0; for (DQ::iterator i = s.d->begin(); i != s.d->end(); ++i) { if (++k > n + 2) violate("iteration-wrong", "iteration does not end"); got.push_back(i->get()); } }
    return got;
}
static void compare(State &s, const char *op) {
    SIM_CHECK(s.d->size() == s.m.size() && s.d->empty() == s.m.empty(), "size-wrong", "after %s: size %zu empty %d, expected %zu", op, s.d->size(), s.d->empty(), s.m.size());
    vector<int> got = contents(s), want(s.m.begin(), s.m.end());
    SIM_CHECK(got == want, "contents-wrong", "after %s: contents%s, expected%s", op, show(got).c_str(), show(want).c_str());
    if (!s.m.empty()) SIM_CHECK(s.d->front().get() == s.m.front() && s.d->back().get() == s.m.back(), "ends-wrong", "after %s: front %d back %d", op, s.d->front().get(), s.d->back().get());
    SIM_CHECK(s.d->capacity() >= s.m.size(), "capacity-wrong", "after %s: capacity %zu", op, s.d->capacity());
}
static void iterators(State &s) {
    ptrdiff_t n = s.m.size(), a = choose(S_WORK, 2, n + 1), b = choose(S_WORK, 2, n + 1); DQ::iterator i = s.d->begin() + a, j = s.d->begin(), e = s.d->end();
    if (choose(S_WORK, 2, 2)) j += b; else { j = s.d->end(); j -= n - b; }
    SIM_CHECK((i == j) == (a == b) && (i != j) == (a != b), "iterator-wrong", "equality of positions %td and %td of %td", a, b, n);
    SIM_CHECK((i < j) == (a < b) && (i > j) == (a > b) && (i <= j) == (a <= b) && (i >= j) == (a >= b) && i - j == a - b && e - i == n - a, "iterator-wrong", "order or distance of positions %td and %td of %td", a, b, n);
    if (a < n) SIM_CHECK((*i).get() == s.m[a] && (*(j + (a - b))).get() == s.m[a] && (*(e - (n - a))).get() == s.m[a], "iterator-wrong", "position %td of %td", a, n);
    if (a < n) { DQ::iterator k = i++; SIM_CHECK(k->get() == s.m[a] && i - k == 1, "iterator-wrong", "post-increment at %td", a); --i; SIM_CHECK(i->get() == s.m[a], "iterator-wrong", "decrement to %td", a); if (a > 0) { k = i--; SIM_CHECK(i->get() == s.m[a - 1] && k - i == 1, "iterator-wrong", "post-decrement at %td", a); } }
}
static void run() {
    throwingAsserts(); size_t blocks0 = libBlocks(), elems0 = elemsAlive(); int next = 1; State s; size_t n0 = range(S_CFG, 0, 2, 9); s.d = NULL; s.cap = 0; bool nt = false;
    maybeArm(0, 0.05, 3);
    Outcome o = attempt([&] { s.d = new DQ(n0); }); if (o == FAILED) { SIM_CHECK(libBlocks() == blocks0, "leak", "failed construction leaks"); o = attempt([&] { s.d = new DQ(n0); }); }
    SIM_CHECK(o == DONE, "construct-failed", "size %zu refused", n0);
    int ops = range(S_CFG, 1, 1, tierThorough() ? 120 : 60); unsigned bias = choose(S_CFG, 2, 3);
    for (int i = 0; i < ops; ++i) {
        unsigned op = chooseW(S_WORK, 0, {bias == 1 ? 30u : 12u, bias == 2 ? 16u : 9u, 2, 1, 2, 2, 2, 3, 2, 1}); const char *name = ""; std::deque<int> before = s.m, after = s.m; 
        ev("op", op, s.m.size());
        switch (op) {
        case 0: { name = "push_back"; Elem e(next); after.push_back(next++); maybeArm(0, 0.3, 24); o = attempt([&] { s.d->push_back(e); }); break; }
        case 1: { name = "pop_front"; if (s.m.empty()) continue; after.pop_front(); maybeArm(0, 0.1, 4); o = attempt([&] { s.d->pop_front(); }); break; }
        case 2: { name = "push_back(vector)"; vector<Elem> v; int n = choose(S_WORK, 3, 12); for (int k = 0; k < n; ++k) { v.push_back(Elem(next)); after.push_back(next++); } maybeArm(0, 0.3, 40); o = attempt([&] { s.d->push_back(v); });
            if (o == FAILED) { // the vector is pushed one by one: some prefix of it is there
                size_t k = s.d->size() - before.size(); SIM_CHECK(k <= v.size(), "size-wrong", "failed push_back(vector): size %zu", s.d->size()); after = before; for (size_t q = 0; q < k; ++q) after.push_back(v[q].v); before = after; } break; }
        case 3: { name = "clear"; after.clear(); o = attempt([&] { s.d->clear(); }); break; }
        case 4: { name = "reserve"; size_t n = range(S_WORK, 4, 1, 20); maybeArm(0, 0.4, 3); o = attempt([&] { s.d->reserve(n); }); if (!s.m.empty()) { SIM_CHECK(o != DONE, "reserve-nonempty", "reserve on a non-empty deque accepted"); if (o == FATAL) o = DONE; } else if (o == DONE) SIM_CHECK(s.d->capacity() >= n, "capacity-wrong", "reserve(%zu): capacity %zu", n, s.d->capacity()); break; }
        case 5: { name = "push_back(own element)"; if (s.m.empty()) continue; size_t k = choose(S_WORK, 5, s.m.size()); after.push_back(s.m[k]); maybeArm(0, 0.2, 24); o = attempt([&] { s.d->push_back(k == 0 && i % 2 ? s.d->front() : s.d->at(k)); }); break; }
        case 6: { name = "assign through at"; if (s.m.empty()) continue; size_t k = choose(S_WORK, 5, s.m.size()); Elem e(next); after[k] = next++; maybeArm(0, 0.2, 4); o = attempt([&] { if (i % 2) s.d->at(k) = e; else *(s.d->begin() + k) = e; }); break; }
        case 7: { name = "iterators"; o = attempt([&] { iterators(s); }); SIM_CHECK(o == DONE, "valid-use-refused", "iterator use refused"); break; }
        case 8: { name = "drain and refill"; int n = choose(S_WORK, 3, 10); o = attempt([&] { for (int k = 0; k < n; ++k) { if (!s.m.empty()) { s.d->pop_front(); s.m.pop_front(); } Unlib u; Elem e(next); s.m.push_back(next++); { Lib l; s.d->push_back(e); } } }); before = after = s.m; break; }
        case 9: { name = "out of range use"; 
            if (!DBG) continue;
            unsigned w = choose(S_WORK, 6, 7); size_t n = s.m.size(); if (w < 3 && n) { s.d->clear(); s.m.clear(); n = 0; after = before = s.m; }
            o = attempt([&] { switch (w) { case 0: s.d->front(); break; case 1: s.d->back(); break; case 2: s.d->pop_front(); break; case 3: s.d->at(n + choose(S_WORK, 6, 3)); break; case 4: s.d->begin() + (n + 1 + choose(S_WORK, 6, 3)); break; case 5: s.d->begin() - 1; break; case 6: s.d->end() -= n + 1; break; } });
            SIM_CHECK(o == FATAL, "range-unchecked", "out of range use %u of %zu elements not reported", w, n); o = DONE; probe("range-checked"); break; }
        }
        SIM_CHECK(o != FATAL, "valid-use-refused", "%s refused", name);
        if (o == FAILED) { nt = true; // before or after, nothing else
            if (s.d->size() == after.size() && after.size() != before.size()) s.m = after; else { s.m = before; if (op == 6 && s.d->at(0).v >= 0) { std::deque<int> a = after; vector<int> g = contents(s); if (g == vector<int>(a.begin(), a.end())) s.m = after; } } }
        else s.m = after;
        note("   %s -> %s, %zu elements", name, o == DONE ? "done" : "failed", s.m.size());
        compare(s, name);
        SIM_CHECK(elemsAlive() == elems0 + s.m.size(), "elements-alive", "after %s: %zu elements alive, %zu stored", name, elemsAlive() - elems0, s.m.size());
        stateHash(s.m.size() * 64 + s.d->capacity()); if (s.d->capacity() > n0) nt = true;
    }
    { Lib l; delete s.d; }
    SIM_CHECK(elemsAlive() == elems0, "elements-leaked", "%zu elements never destroyed", elemsAlive() - elems0);
    SIM_CHECK(libBlocks() == blocks0, "leak", "%zu blocks never freed", libBlocks() - blocks0);
    if (nt) nontrivial();
}
}
#if DBG
SIM_SCENARIO("D01", history_debug, 1) { run(); }
#else
SIM_SCENARIO("D01", history, 2) { run(); }
// long queues: growth through many sizes with the contents wrapped around, and bulk appends
SIM_SCENARIO("D01", deep, 1) {
    throwingAsserts(); unsigned big = 1u << choose(S_CFG, 0, tierThorough() ? 18 : 14), phases = 1 + choose(S_CFG, 1, 8); Deque<long> *d = choose(S_CFG, 2, 2) ? new Deque<long> : new Deque<long>(2 + choose(S_CFG, 3, 100)); std::deque<long> m; long next = 1;
    for (unsigned ph = 0; ph < phases; ++ph) { unsigned w = choose(S_WORK, 0, 5), n = 1 + choose(S_WORK, 1, big); const char *name = ""; ev("phase", w, n);
        switch (w) {
        case 0: name = "push_back"; while (n--) { d->push_back(next); m.push_back(next++); } break;
        case 1: name = "push_back(vector)"; { vector<long> v; while (n--) v.push_back(next++); d->push_back(v); m.insert(m.end(), v.begin(), v.end()); break; }
        case 2: name = "pop_front"; while (n-- && !m.empty()) { SIM_CHECK(d->front() == m.front(), "ends-wrong", "front %ld, expected %ld", d->front(), m.front()); d->pop_front(); m.pop_front(); } break;
        case 3: name = "through-flow"; while (n--) { d->push_back(next); m.push_back(next++); if (n % 3) { SIM_CHECK(d->front() == m.front(), "ends-wrong", "front %ld, expected %ld", d->front(), m.front()); d->pop_front(); m.pop_front(); } } break;
        case 4: name = "assign"; for (unsigned i = 0; i < n && !m.empty(); ++i) { size_t k = (i * 2654435761u) % m.size(); d->at(k) = next; m[k] = next++; } break; }
        SIM_CHECK(d->size() == m.size() && d->empty() == m.empty(), "size-wrong", "after %s: size %zu, expected %zu", name, d->size(), m.size()); size_t k = 0; for (Deque<long>::iterator i = d->begin(); i != d->end() && k < m.size(); ++i, ++k) SIM_CHECK(*i == m[k] && d->at(k) == m[k], "contents-wrong", "after %s: element %zu is %ld, expected %ld", name, k, *i, m[k]); SIM_CHECK(k == m.size(), "contents-wrong", "after %s: iteration gives %zu of %zu", name, k, m.size()); if (k) SIM_CHECK(d->back() == m.back(), "ends-wrong", "after %s: back %ld", name, d->back()); stateHash(k); }
    delete d; if (big > 64) nontrivial();
}
SIM_SCENARIO("D01", bad_size, 1) { throwingAsserts(); for (size_t n = 0; n < 2; ++n) { DQ *d = NULL; Outcome o = attempt([&] { d = new DQ(n); }); SIM_CHECK(o == FATAL, "bad-size-accepted", "deque of size %zu", n); } SIM_CHECK(libBlocks() == 0, "leak", "refused construction leaks"); nontrivial(); }
#endif

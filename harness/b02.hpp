// B02: byte buffers against strings
#ifndef DBG
#define DBG 0
#endif
#include "elem.hpp"
#include <sstream>
#include <Lintel/ByteBuffer.hpp>
namespace {
using lintel::ByteBuffer;
struct Slot { ByteBuffer *b; string c; bool allow; };
struct World { vector<Slot> s; };
string text(const string &x) { string r; for (char c : x) { if (r.size() > 60) return r + "..."; r += c >= 32 && c < 127 ? c : '?'; } return r; }
string take(const ByteBuffer &b) { return string((const char *)b.readStart(), b.readAvailable()); }
bool shared(World &w, size_t k) { if (!w.s[k].b->bufferSize()) return false; for (size_t j = 0; j < w.s.size(); ++j) if (j != k && w.s[j].b->bufferSize() && w.s[j].b->readStart() == w.s[k].b->readStart() && w.s[j].b->bufferSize() == w.s[k].b->bufferSize()) return true; return false; }
void compareAll(World &w, const char *op) {
    for (size_t k = 0; k < w.s.size(); ++k) { Slot &s = w.s[k]; string g = take(*s.b);
        SIM_CHECK(g == s.c, "contents-wrong", "after %s: buffer %zu holds '%s', expected '%s'", op, k, text(g).c_str(), text(s.c).c_str());
        SIM_CHECK(s.b->empty() == s.c.empty() && s.b->readAvailable() == s.c.size() && s.b->readAvailable() + s.b->writeAvailable() <= s.b->bufferSize() && s.b->asString() == s.c, "accessors-wrong", "after %s: buffer %zu: empty %d available %zu writeable %zu size %zu", op, k, s.b->empty(), s.b->readAvailable(), s.b->writeAvailable(), s.b->bufferSize()); }
    stateHash(w.s.size());
}
unsigned letter, kindOfBytes; size_t scale = 1; string fresh(size_t n) { string r; r.reserve(n); for (size_t i = 0; i < n; ++i) if (kindOfBytes && letter % 3) { r += (char)(letter % 5 == 0 ? 255 : 0); ++letter; } else r += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[letter++ % 62]; return r; }
void run() {
    throwingAsserts(); { ByteBuffer warm; warm.append("x", 1); } size_t blocks0 = libBlocks(); World w; letter = 0; kindOfBytes = choose(S_CFG, 2, 3) == 1; scale = choose(S_CFG, 3, 8) == 7 ? range(S_CFG, 4, 20, 700) : 1; bool nt = false; size_t slots = range(S_CFG, 0, 1, 5); int ops = range(S_CFG, 1, 1, tierThorough() ? 140 : 70);
    // fills a slot: 0 empty 1 from string 2 from text 3 from text with length 4 copy of another
    auto make = [&](Slot &s) { unsigned how = choose(S_WORK, 0, w.s.empty() ? 4 : 7); string t = how ? fresh(choose(S_WORK, 1, 12) * scale) : ""; if (how == 2) t = string(t.c_str()); s.allow = choose(S_WORK, 2, 2); s.b = NULL; size_t from = how >= 4 ? choose(S_WORK, 3, w.s.size()) : 0;
        auto go = [&] { switch (how) { case 0: s.b = new ByteBuffer(s.allow); break; case 1: s.b = new ByteBuffer(t, s.allow); break; case 2: s.b = new ByteBuffer(t.c_str(), -1, s.allow); break; case 3: s.b = new ByteBuffer(t.empty() ? "not these" : t.data(), t.size(), s.allow); break; default: s.b = new ByteBuffer(*w.s[from].b); } };
        size_t b0 = libBlocks(); maybeArm(0, 0.3, 6); Outcome o = attempt(go); SIM_CHECK(o != FATAL, "valid-use-refused", "constructor %u refused", how); if (o == FAILED) { nt = true; SIM_CHECK(libBlocks() == b0, "leak", "failed constructor %u leaks", how); Lib l; go(); }
        if (how >= 4) { s.c = w.s[from].c; s.allow = w.s[from].allow; } else s.c = t; w.s.push_back(s); };
    for (size_t i = 0; i < slots; ++i) { Slot s; make(s); } compareAll(w, "construction");
    for (int i = 0; i < ops; ++i) {
        unsigned op = chooseW(S_WORK, 5, {6, 3, 3, 4, 3, 3, 4, 4, 3, 2, 2, 2, 2, 2, 2, 4, 3, 2, 2, 2}); size_t k = choose(S_WORK, 6, w.s.size()), k2 = choose(S_WORK, 7, w.s.size()); Slot &s = w.s[k]; ByteBuffer &b = *s.b; const string old = s.c; string nw = old; const char *name = "?"; Outcome o = DONE; ev("op", op, k);
        size_t n = choose(S_WORK, 8, 24) * scale, avail = b.readAvailable(), wav = b.writeAvailable(), size = b.bufferSize(); bool sh = shared(w, k), mutates = true, bad = false; string t = fresh(n), third;
        auto go = [&](std::function<void()> f) { maybeArm(0, 0.3, 6); o = attempt([&] { f(); }); };
        switch (op) {
        case 0: name = "append"; nw += t; if (choose(S_WORK, 9, 2)) go([&] { b.append(t); }); else go([&] { b.append(t.data(), t.size()); }); break;
        case 1: name = "append(buffer)"; nw += w.s[k2].c; go([&] { b.append(*w.s[k2].b); }); break;
        case 2: { name = "append(own part)"; size_t f = choose(S_WORK, 9, avail + 1), l = choose(S_WORK, 10, avail - f + 1); nw += old.substr(f, l); go([&] { b.append(b.readStart() + f, l); }); break; }
        case 3: name = "assign"; nw = t; if (choose(S_WORK, 9, 2)) go([&] { b.assign(t); }); else go([&] { b.assign(t.data(), t.size()); }); break;
        case 4: name = "assign(buffer)"; nw = w.s[k2].c; go([&] { b.assign(*w.s[k2].b); }); break;
        case 5: { name = "assign(own part)"; size_t f = choose(S_WORK, 9, avail + 1), l = choose(S_WORK, 10, avail - f + 1); nw = old.substr(f, l); go([&] { b.assign(b.readStart() + f, l); }); break; }
        case 6: { name = "replace"; size_t f = choose(S_WORK, 9, avail + 3), l = choose(S_WORK, 10, avail + 3); t = fresh(l); if (choose(S_WORK, 27, 24) == 23) f = (size_t)0 - choose(S_WORK, 10, 3); bad = f > avail || l > avail - f; if (!bad) nw.replace(f, l, t); go([&] { b.replace(f, t.data(), l); }); break; }
        case 7: { name = "consume"; n = choose(S_WORK, 9, avail + (DBG ? 3 : 1)); bad = n > avail; if (!bad) nw.erase(0, n); go([&] { b.consume(n); }); break; }
        case 8: { name = "unextend"; n = choose(S_WORK, 9, avail + 3); bad = n > avail; if (!bad) nw.resize(avail - n); go([&] { b.unextend(n); }); break; }
        case 9: { name = "writeStart"; n = choose(S_WORK, 9, wav + 3); t = fresh(n); bad = n > wav; nw += t; go([&] { uint8_t *p = b.writeStart(n); memcpy(p, t.data(), n); }); break; }
        case 10: { name = "writeStart and extend"; n = choose(S_WORK, 9, wav + 1); size_t x = choose(S_WORK, 10, wav + 3); string all = fresh(wav); bad = x > wav; if (!bad) nw += all.substr(0, x); go([&] { char *p = b.writeStartAs<char>(0); memcpy(p, all.data(), wav); if (x & 1) b.extend(x); else b.extendAs<char>(x); }); break; }
        case 11: { name = "writeableReadStart"; if (!avail) continue; n = choose(S_WORK, 9, avail); nw[n] = t.empty() ? '!' : t[0]; go([&] { b.writeableReadStart()[n] = nw[n]; }); break; }
        case 12: { name = "resizeBuffer"; n = choose(S_WORK, 9, 3) == 0 ? size : choose(S_WORK, 10, 60); bad = n < avail; go([&] { b.resizeBuffer(n); }); if (o == DONE && !bad) SIM_CHECK(b.bufferSize() == n && b.writeAvailable() == n - avail, "resize-wrong", "resizeBuffer(%zu): size %zu writeable %zu with %zu readable", n, b.bufferSize(), b.writeAvailable(), avail); if (o == DONE && !bad) SIM_CHECK(b.readStart() != NULL, "resize-wrong", "no valid pointer after resizeBuffer(%zu)", n); break; }
        case 13: name = "shift"; go([&] { b.shift(); }); if (o == DONE) SIM_CHECK(b.writeAvailable() + avail == b.bufferSize(), "shift-wrong", "shift left unused space"); break;
        case 14: { name = "reset or purge"; nw.clear(); bool p = choose(S_WORK, 9, 2); go([&] { if (p) b.purge(); else b.reset(); }); if (o == DONE && p) SIM_CHECK(b.bufferSize() == 0, "purge-wrong", "purge keeps %zu", b.bufferSize()); break; }
        case 15: { name = "assignment"; mutates = false; nw = w.s[k2].c; bool al = w.s[k2].allow; go([&] { b = *w.s[k2].b; }); if (o == DONE) s.allow = al; break; }
        case 16: name = "forceUnique"; mutates = false; go([&] { b.forceUnique(); }); if (o == DONE) SIM_CHECK(!shared(w, k), "not-unique", "still shared after forceUnique"); break;
        case 17: name = "detach"; mutates = false; nw.clear(); go([&] { b.detach(); }); break;
        case 18: { name = "compare"; mutates = false; bool q = false, q2 = false; go([&] { q = b == *w.s[k2].b; q2 = b != *w.s[k2].b; }); SIM_CHECK(q == (s.c == w.s[k2].c) && q2 == !q, "equality-wrong", "'%s' and '%s' compare %d %d", text(s.c).c_str(), text(w.s[k2].c).c_str(), q, q2);
            if (o == DONE) { Lib l; string t2 = s.c; bool same = choose(S_WORK, 9, 2) || t2.empty(); if (!same) t2[choose(S_WORK, 10, t2.size())] ^= 1 << choose(S_WORK, 28, 8); ByteBuffer other(t2); q = b == other; q2 = b != other; SIM_CHECK(q == same && q2 == !same, "equality-wrong", "'%s' and '%s' compare %d %d", text(s.c).c_str(), text(t2).c_str(), q, q2); std::ostringstream out; out << b; SIM_CHECK(out.str() == s.c, "output-wrong", "'%s' was written as '%s'", text(s.c).c_str(), text(out.str()).c_str()); }
            break; }
        case 19: { name = "replaced by a new one"; { Lib l; delete s.b; } w.s.erase(w.s.begin() + k); Slot z; make(z); compareAll(w, name); continue; }
        }
        bool refuse = bad || (mutates && sh && !s.allow);
        if (o == DONE) { SIM_CHECK(!refuse, bad ? "misuse-accepted" : "shared-mutation-accepted", "%s accepted (shared %d, allowed %d, %zu of %zu readable, %zu writeable)", name, sh, s.allow, avail, size, wav); s.c = nw; if (mutates && sh) { nt = true; probe("copied-on-write"); } }
        else if (o == FATAL) { SIM_CHECK(refuse, "valid-use-refused", "%s refused (shared %d, allowed %d, %zu of %zu readable, %zu writeable)", name, sh, s.allow, avail, size, wav); probe("refused"); }
        else { nt = true; string g = take(b); if (g == nw && !refuse) s.c = nw; }
        note("   %s on %zu -> %s: '%s'", name, k, o == DONE ? "done" : o == FATAL ? "refused" : "failed", text(s.c).c_str()); compareAll(w, name);
    }
    { Lib l; for (Slot &s : w.s) delete s.b; } SIM_CHECK(libBlocks() == blocks0, "leak", "%zu blocks never freed", libBlocks() - blocks0); if (nt) nontrivial();
}
}
#if DBG
SIM_SCENARIO("B02", history_debug, 1) { run(); }
#else
SIM_SCENARIO("B02", history, 2) { run(); }
#endif

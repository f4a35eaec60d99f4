// B01: reading from streams into a byte buffer
#include "elem.hpp"
#include <Lintel/ByteBuffer.hpp>
#include <istream>
namespace {
using lintel::ByteBuffer;
struct Broken { };
// delivers src in fragments, ends early or fails as decided; out counts what it handed over in calls that returned
struct Source : std::streambuf {
    string src, out; size_t pos; unsigned chunk; double pshort; bool throwing; unsigned how; char buf[64]; bool failed, ended; bool bulk; long failAt;
    Source() : pos(0), chunk(0), pshort(0), throwing(false), how(0), failed(false), ended(false), bulk(true), failAt(-1) { }
    void fail() { failed = true; Unlib u; fault("stream-read-fails"); probe("stream-failed"); throw Broken(); }
    size_t grant(size_t want) { Unlib u; if (pos >= src.size()) { ended = true; return 0; } size_t n = std::min(want, src.size() - pos); if (failAt >= 0 && (long)pos >= failAt) { failAt = -1; if (throwing) fail(); ended = true; return 0; } if (failAt >= 0) n = std::min(n, (size_t)failAt - pos); if (chunk) n = std::min(n, (size_t)1 + choose(S_IO, 0, chunk)); return n; }
    int_type underflow() override { size_t n = grant(sizeof buf); if (!n) return traits_type::eof(); memcpy(buf, src.data() + pos, n); pos += n; setg(buf, buf, buf + n); return traits_type::to_int_type(buf[0]); }
    std::streamsize xsgetn(char *to, std::streamsize want) override { std::streamsize got = 0;
        if (!bulk) got = std::streambuf::xsgetn(to, want); // fragments through underflow
        else while (got < want) { size_t n = grant(want - got); if (!n) break; memcpy(to + got, src.data() + pos, n); pos += n; got += n; if (!pshort) continue; Unlib u; if (chance(S_IO, 1, pshort)) { ended = true; break; } }
        Unlib u; out.append(to, got); return got; }
};
string text(const string &x) { string r; for (char c : x) { if (r.size() > 60) return r + "..."; r += c >= 32 && c < 127 ? c : '?'; } return r; }
string take(const ByteBuffer &b) { return string((const char *)b.readStart(), b.readAvailable()); }
SIM_SCENARIO("B01", appends, 1) {
    throwingAsserts(); { ByteBuffer warm; warm.append("x", 1); } size_t blocks0 = libBlocks(); ByteBuffer *b; { Lib l; b = new ByteBuffer(true); } string model; unsigned letter = 0; bool nt = false;
    ByteBuffer *twin = NULL; string twinModel; int ops = range(S_CFG, 0, 1, tierThorough() ? 16 : 8); 
    for (int i = 0; i < ops; ++i) {
        // some unrelated history first: consumed fronts, spare space, sharing
        switch (choose(S_WORK, 0, 6)) { case 1: { size_t n = choose(S_WORK, 1, b->readAvailable() + 1); { Lib l; b->consume(n); } model.erase(0, n); break; } case 2: { size_t n = b->readAvailable() + choose(S_WORK, 1, 100); Lib l; b->resizeBuffer(n); break; }
        case 3: { twinModel = model; Lib l; delete twin; twin = new ByteBuffer(*b); break; } case 4: { Lib l; b->reset(); model.clear(); break; } case 5: { Lib l; b->purge(); model.clear(); break; } default: break; }
        Source s; size_t len = choose(S_CFG, 1, 3) == 2 ? range(S_WORK, 2, 900, 5000) : range(S_WORK, 2, 0, 80); for (size_t q = 0; q < len; ++q) s.src += (char)((letter += 7) ^ (letter >> 8)); s.chunk = choose(S_WORK, 3, 3) ? range(S_WORK, 4, 1, 40) : 0; s.bulk = choose(S_WORK, 5, 2) == 0; s.pshort = choose(S_WORK, 6, 4) == 1 ? 0.3 : 0;
        if (faultsEnabled() && chance(S_FAULT, 20, 0.5)) { s.failAt = choose(S_FAULT, 21, len + 1); s.throwing = choose(S_FAULT, 22, 3) != 0; }
        std::istream in(&s); unsigned mask = choose(S_WORK, 7, 5); try { if (mask == 1) in.exceptions(std::ios::badbit); else if (mask == 2) in.exceptions(std::ios::badbit | std::ios::failbit | std::ios::eofbit); else if (mask == 3) in.exceptions(std::ios::eofbit); } catch (...) { }
        unsigned start = choose(S_WORK, 8, 8); if (mask == 0 || mask == 4) { if (start == 1) in.setstate(std::ios::eofbit); if (start == 2) in.setstate(std::ios::badbit); if (start == 3) in.setstate(std::ios::failbit); }
        bool entire = choose(S_WORK, 9, 2); size_t amount = choose(S_WORK, 10, 3) == 0 ? range(S_WORK, 11, 0, 6000) : choose(S_WORK, 11, 120); size_t before = b->bufferSize(); int64_t ret = -2; bool streamThrew = false; ev("append", entire, amount, len);
        unsigned times = 1 + choose(S_WORK, 12, 2); // the same stream may be read again
        for (unsigned t = 0; t < times; ++t) {
            size_t had = s.out.size(); bool goodBefore = in.good(); before = b->bufferSize(); ret = -2; streamThrew = false;
            maybeArm(0, 0.2, 5); Outcome o = attempt([&] { try { ret = entire ? b->appendEntireStream(in, amount) : b->appendFromStream(in, amount); } catch (Broken &) { streamThrew = true; } catch (std::ios_base::failure &) { streamThrew = true; } });
            string got = s.out.substr(had); model += got; SIM_CHECK(o != FATAL, "valid-use-refused", "append refused");
            note("   %s(%zu) of %zu bytes: %lld, got %zu, threw %d, outcome %d, state %d", entire ? "entire" : "amount", amount, len, (long long)ret, got.size(), streamThrew, o, (int)in.rdstate());
            SIM_CHECK(take(*b) == model, "bytes-wrong", "after appending %zu bytes: '%s', expected '%s'", got.size(), text(take(*b)).c_str(), text(model).c_str());
            SIM_CHECK(b->readAvailable() + b->writeAvailable() <= b->bufferSize(), "accessors-wrong", "sizes"); if (twin) SIM_CHECK(take(*twin) == twinModel, "other-changed", "a buffer copied earlier changed");
            if (got.size() && (s.chunk || s.failed || o == FAILED)) nt = true; if (streamThrew) probe("stream-threw"); if (o == FAILED) { probe("memory-ran-out"); break; }
            if (streamThrew) { SIM_CHECK(mask == 1 || mask == 2 || mask == 3, "exception-unasked", "an exception came out of a stream that has none enabled"); break; }
            if (o == DONE) { SIM_CHECK(ret == (in.bad() ? -1 : (int64_t)got.size()), "return-wrong", "returned %lld, the stream delivered %zu and is %s", (long long)ret, got.size(), in.bad() ? "bad" : "not bad");
                if (!goodBefore) SIM_CHECK(got.empty(), "read-not-good", "read from a stream that was not good");
                size_t limit = std::max(before ? before : std::min((size_t)1024, amount), amount);
                if (entire) { SIM_CHECK(b->bufferSize() <= limit, "limit-exceeded", "buffer of %zu, maximum %zu", b->bufferSize(), limit); if (in.good() && goodBefore) SIM_CHECK(b->bufferSize() == limit && b->writeAvailable() == 0, "stopped-early", "stopped with %zu of %zu used by %zu readable, stream still good", b->bufferSize() - b->writeAvailable(), limit, b->readAvailable()); }
                else { SIM_CHECK(got.size() <= amount, "limit-exceeded", "%zu bytes, %zu asked for", got.size(), amount); if (in.good() && goodBefore) SIM_CHECK(got.size() == amount, "stopped-early", "%zu of %zu bytes, stream still good", got.size(), amount); } }
        }
        stateHash(model.size()); if (model.size() > 20000) { Lib l; b->reset(); model.clear(); }
    }
    { Lib l; delete b; delete twin; } SIM_CHECK(libBlocks() == blocks0, "leak", "%zu blocks never freed", libBlocks() - blocks0); if (nt) nontrivial();
}
}

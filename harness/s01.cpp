// S01: process statistics against a simulated report of the system
#include "elem.hpp"
#include "io.hpp"
#include <unistd.h>
#include <errno.h>
#define LINTEL_UNSTABLE_PROCESS_STATISTICS_NOWARN
#include <Lintel/unstable/ProcessStatistics.hpp>
namespace {
using namespace lintel; using namespace lintel::process_statistics;
struct Rep { ReportFile *f; size_t cur[7], ps; int cut; bool partial; };
string render(Rep &r, bool count) { string s; for (int i = 0; i < 7; ++i) s += (i ? " " : "") + std::to_string(r.cur[i]); s += "\n"; (void)count; if (r.cut >= 0) { // the report ends before its last number begins
        size_t lim = s.rfind(' ') + 1; Unlib u; fault("report-cut"); s.resize(std::min((size_t)r.cut, lim)); r.partial = true; } return s; }
void change(Rep &r) { for (int i = 0; i < 7; ++i) { unsigned b = choose(S_WORK, 20, 8); r.cur[i] = b == 0 ? 0 : b == 1 ? range(S_WORK, 21, 1, 1ll << 40) : range(S_WORK, 21, 1, 100000); } }
SIM_SCENARIO("S01", history, 1) {
    throwingAsserts(); size_t ps = getpagesize(); pid_t pid = choose(S_CFG, 0, 2) ? 4711 : 0; char path[64]; snprintf(path, sizeof path, "/proc/%d/statm", pid ? pid : (int)getpid()); Rep r; r.ps = ps; r.cut = -1; r.partial = false; r.f = &reportFile(path); r.f->content = [&] { return render(r, true); }; change(r);
    ProcessStatistics *p = NULL; size_t last[2] = {0, 0}; bool valid = false, nt = false; int ops = range(S_CFG, 1, 1, tierThorough() ? 80 : 40); unsigned queries = 0;
    auto faults = [&] { r.cut = -1; r.partial = false; r.f->open_errno = 0; r.f->fail_at = -1; r.f->seek_errno = 0; r.f->fired = 0; r.f->max_chunk = choose(S_IO, 30, 2) ? 0 : 3; r.f->fail_once = false; static const int errs[] = {ENOENT, EMFILE, EACCES, ENOMEM, ESRCH};
        if (!faultsEnabled() || !chance(S_FAULT, 0, 0.35)) return; switch (choose(S_FAULT, 1, 4)) { case 0: r.f->open_errno = errs[choose(S_FAULT, 2, 5)]; break; case 1: r.f->fail_at = choose(S_FAULT, 3, 14); r.f->fail_errno = choose(S_FAULT, 4, 2) ? EIO : ESRCH; r.f->fail_once = choose(S_FAULT, 5, 2); break; case 2: r.f->seek_errno = EIO; break; case 3: r.cut = choose(S_FAULT, 6, 30); break; } };
    auto fullReport = [&] { int c = r.cut; r.cut = -1; size_t n = render(r, false).size(); r.cut = c; return n; };
    for (int i = 0; i < ops; ++i) {
        unsigned op = p ? chooseW(S_WORK, 0, {4, 4, 3, 5, 1, 2, 1}) : choose(S_WORK, 1, 3) ? 0 : 5; faults(); size_t opened = r.f->openNow(); bool canFail = true; Outcome o; StatType w = choose(S_WORK, 2, 2) ? AddressSize : ResidentSize; size_t g = 0; const char *name = "?"; ev("op", op);
        bool willFail = false; size_t lim = fullReport(); (void)lim;
        if (!p && op != 5) { name = "construct"; o = attempt([&] { p = new ProcessStatistics(pid); }); willFail = r.f->open_errno || r.f->seek_errno || r.cut >= 0 || r.f->fired; if (o == FATAL) { SIM_CHECK(r.f->openNow() == opened, "file-leaked", "a failed constructor leaves the report open"); p = NULL; } else { last[0] = r.cur[0]; last[1] = r.cur[1]; valid = true; } }
        else switch (op) {
        case 0: name = "get"; o = attempt([&] { g = p->get(w); }); willFail = r.f->seek_errno || r.cut >= 0 || r.f->fired; if (o == DONE) { last[0] = r.cur[0]; last[1] = r.cur[1]; SIM_CHECK(willFail || g == (w == AddressSize ? last[0] : last[1]) * ps, "value-wrong", "get gave %zu, the system reports %zu and %zu pages", g, r.cur[0], r.cur[1]); } break;
        case 1: name = "getCached"; canFail = false; o = attempt([&] { g = p->getCached(w); }); SIM_CHECK(o == DONE && g == last[w == AddressSize ? 0 : 1] * ps, "cached-wrong", "cached value %zu, the last refresh gave %zu and %zu pages (now %zu and %zu)", g, last[0], last[1], r.cur[0], r.cur[1]); ++queries; break;
        case 2: name = "invalidate"; o = attempt([&] { p->invalidate(); }); willFail = r.f->seek_errno || r.cut >= 0 || r.f->fired; if (o == DONE) { last[0] = r.cur[0]; last[1] = r.cur[1]; } break;
        case 3: name = "the system changes"; canFail = false; change(r); o = DONE; break;
        case 4: name = "destroy"; canFail = false; { Lib l; r.f->seek_errno = 0; delete p; } p = NULL; o = DONE; SIM_CHECK(r.f->openNow() == 0, "file-leaked", "the report stays open"); break;
        case 5: name = "getOnce"; o = attempt([&] { g = ProcessStatistics::getOnce(w, pid); }); willFail = r.f->open_errno || r.f->seek_errno || r.cut >= 0 || r.f->fired; if (o == DONE) SIM_CHECK(willFail || g == (w == AddressSize ? r.cur[0] : r.cur[1]) * ps, "value-wrong", "getOnce gave %zu, the system reports %zu and %zu pages", g, r.cur[0], r.cur[1]); SIM_CHECK(r.f->openNow() == opened, "file-leaked", "getOnce leaves the report open"); break;
        default: name = "unsupported"; canFail = false; { StatType bad = (StatType)(choose(S_WORK, 3, 5) + 90); bool sup = true; sup = p->supported(bad); o = attempt([&] { g = p->getCached(bad); }); SIM_CHECK(o == FATAL && !sup && p->supported(w), "unknown-accepted", "statistic %d", (int)bad); o = DONE; } break;
        }
        if (canFail) { SIM_CHECK(willFail || o == DONE, "valid-use-refused", "%s refused although the system reported everything", name); SIM_CHECK(!willFail || o == FATAL, "failure-ignored", "%s succeeded although the system's report could not be %s", name, r.f->open_errno ? "opened" : r.f->seek_errno ? "rewound" : r.cut >= 0 ? "read completely" : "read"); }
        if (o == FATAL) { nt = true; probe("refused"); } note("   %s -> %d (%zu)", name, o, g); (void)valid; stateHash(op);
    }
    faults(); r.f->seek_errno = 0; { Lib l; delete p; } SIM_CHECK(r.f->openNow() == 0, "file-leaked", "%u reports stay open", r.f->openNow()); if (nt || queries > 2) nontrivial();
}
}

// O01: program options against a reference, through histories of parses with failing reads
#include "elem.hpp"
#include "io.hpp"
#include <errno.h>
#include <stdlib.h>
#include <sstream>
#include <fstream>
#include <functional>
#include <Lintel/ProgramOptions.hpp>
namespace {
using namespace lintel;
struct OddFail { };
bool odd_fail; unsigned odd_fired;
// a user's own option type: showing its default can fail
struct Odd { int v; Odd(int x = 0) : v(x) { } };
std::ostream &operator<<(std::ostream &o, const Odd &d) { if (odd_fail) { ++odd_fired; throw OddFail(); } return o << "odd" << d.v; }
std::istream &operator>>(std::istream &i, Odd &d) { char c[3]; for (int k = 0; k < 3; ++k) { i >> c[k]; if (c[k] != "odd"[k]) i.setstate(std::ios::failbit); } return i >> d.v; }
template<class T> string rep(const T &t) { std::ostringstream o; o << t; return o.str(); }
template<class T> string rep(const vector<T> &t) { string s; for (size_t i = 0; i < t.size(); ++i) s += (i ? "," : "") + rep(t[i]); return s; }
struct Opt { string name, desc, shown; char shortName; bool flag, hidden, multi, known, maybe; string def; bool used; string val; std::function<string()> get; std::function<bool()> isUsed; std::function<void(unsigned)> set; int kind; };
template<class T> T mkv(unsigned n);
template<> int mkv<int>(unsigned n) { return (int)n - 500; }
template<> double mkv<double>(unsigned n) { return n / 8.0; }
template<> string mkv<string>(unsigned n) { return "w" + std::to_string(n); }
template<> Odd mkv<Odd>(unsigned n) { return Odd(n); }
template<> vector<int> mkv<vector<int> >(unsigned n) { return vector<int>(1 + n % 3, n); }
template<> vector<string> mkv<vector<string> >(unsigned n) { return vector<string>(1 + n % 2, "w" + std::to_string(n)); }
template<class P, class T> void bindTo(Opt &o, P *p) { o.get = [p] { return rep(p->get()); }; o.isUsed = [p] { return p->used(); }; o.set = [p](unsigned n) { p->set(mkv<T>(n)); }; }
template<class T> void makeT(Opt &o, unsigned dn, bool dflt) {
    string n = o.name + (o.shortName ? string(",") + o.shortName : ""); T d = dflt ? mkv<T>(dn) : T(); o.def = rep(d);
    if (o.hidden) bindTo<TestingOption<T>, T>(o, new TestingOption<T>(n, o.desc, d)); else bindTo<ProgramOption<T>, T>(o, new ProgramOption<T>(n, o.desc, d));
    o.shown = "";
}
string valueText(int kind, unsigned n) { switch (kind) { case 0: return std::to_string((int)n - 500); case 1: return rep(n / 8.0); case 2: { static const char *const fmt[] = {"w%u", "two words %u", "k=v%u", "%u", "a\tb%u", "-dash%u"}; char b[64]; snprintf(b, sizeof b, fmt[n % 6], n); return b; } case 3: return "odd" + std::to_string(n); case 4: return std::to_string(n); case 5: return "x" + std::to_string(n); } return ""; }
string strip(const string &s) { string r; for (char c : s) if (!isspace((unsigned char)c)) r += c; return r; }
SIM_SCENARIO("O01", options, 1) {
    throwingAsserts(); odd_fail = false; odd_fired = 0; unsigned width = range(S_CFG, 0, 30, 120); setenv("COLUMNS", std::to_string(width).c_str(), 1); bool ready = false, envBad = false, nt = false;
    ReportFile &f = reportFile("/sim/options.conf"); string content; f.content = [&] { return content; };
    vector<Opt *> opts; unsigned serial = 0; bool pending = true; int ops = range(S_CFG, 1, 2, tierThorough() ? 50 : 25), parses = 0; string extra;
    auto mk = [&] { Opt *o = new Opt; unsigned id = serial++; o->kind = choose(S_WORK, 1, 7); o->flag = o->kind == 6; o->multi = o->kind == 4 || o->kind == 5; o->hidden = choose(S_WORK, 2, 4) == 3; o->shortName = !o->hidden && choose(S_WORK, 3, 4) == 3 && id < 7 ? "abcdefg"[id] : 0; o->known = o->maybe = false; o->used = false;
        o->name = string(1, 'A' + id % 26) + (id >= 26 ? "b" : "a") + (choose(S_WORK, 4, 4) == 3 ? ".sub" : "name"); o->desc = "about " + o->name; bool d = choose(S_WORK, 5, 2); unsigned dn = range(S_WORK, 6, 0, 999);
        switch (o->kind) { case 0: makeT<int>(*o, dn, d); break; case 1: makeT<double>(*o, dn, d); break; case 2: makeT<string>(*o, dn, d); break; case 3: makeT<Odd>(*o, dn, d); break; case 4: makeT<vector<int> >(*o, dn, d); break; case 5: makeT<vector<string> >(*o, dn, d); break;
        default: { string n = o->name + (o->shortName ? string(",") + o->shortName : ""); o->def = "0"; auto b = [&](ProgramOption<bool> *p) { o->get = [p] { return rep((int)p->get()); }; o->isUsed = [p] { return p->used(); }; o->set = [p](unsigned v) { p->set(v % 2); }; }; if (o->hidden) b(new TestingOption<bool>(n, o->desc)); else b(new ProgramOption<bool>(n, o->desc)); } }
        if (TestingOption<int>::show_description) o->hidden = false;
        note("   option --%s kind %d%s default '%s'", o->name.c_str(), o->kind, o->hidden ? " hidden" : "", o->def.c_str()); opts.push_back(o); pending = true; };
    auto checkOne = [&](Opt *o, const char *after) { bool u = o->isUsed(); string g = o->get(); SIM_CHECK(u == o->used, "used-wrong", "after %s option --%s is %s", after, o->name.c_str(), u ? "used although it was not given" : "unused although it was given"); SIM_CHECK(g == (o->used ? o->val : o->def), "value-wrong", "after %s option --%s has value '%s', expected '%s'", after, o->name.c_str(), g.c_str(), (o->used ? o->val : o->def).c_str()); };
    auto checkAll = [&](const char *after) { for (Opt *o : opts) checkOne(o, after); };
    typedef std::map<Opt *, vector<string> > Given;
    // an option's occurrences: what it stands for, or refusal
    auto give = [&](Given &g, Opt *o, bool &refuse, bool allowBad, bool conf, string &text) { vector<string> &v = g[o]; if (!v.empty() && !o->multi && !allowBad) return false; unsigned n = range(S_WORK, 10, 1, 999); bool bad = allowBad && o->kind != 2 && o->kind != 5 && !o->flag && choose(S_WORK, 11, 12) == 11;
        text = o->flag ? "" : bad ? "oops" : valueText(o->kind, n); if (conf && text.size() && (text[0] == '-' && 0)) return false; if (bad) refuse = true; if (!v.empty() && !o->multi) refuse = true; v.push_back(o->flag ? "1" : text); if (o->kind == 1 && !bad) v.back() = rep(n / 8.0); return true; };
    auto finish = [&](Given &g, bool allOrSome) { // after success: all of them; after a failed allocation: each of them old or new
        for (auto &p : g) { Opt *o = p.first; if (p.second.empty()) continue; string nv; for (size_t i = 0; i < p.second.size(); ++i) nv += (i ? "," : "") + p.second[i]; if (allOrSome && !(o->isUsed() && o->get() == nv)) continue; o->used = true; o->val = nv; } };
    auto clearFaults = [&] { f.open_errno = 0; f.fail_at = -1; f.fail_once = false; f.p_eintr = 0; f.max_chunk = 0; f.fired = 0; odd_fail = false; odd_fired = 0; if (envBad) { setenv("COLUMNS", std::to_string(width).c_str(), 1); envBad = false; } };
    mk();
    for (int i = 0; i < ops; ++i) {
        clearFaults(); unsigned op = chooseW(S_WORK, 0, {5, 3, 4, 4, 2, 1}); bool odd = false; ev("op", op);
        // faults of the step
        if (faultsEnabled() && op && op != 4) { if (pending && chance(S_FAULT, 1, 0.15)) odd_fail = odd = true; if (chance(S_FAULT, 2, 0.07)) { setenv("COLUMNS", "wide", 1); envBad = true; } }
        bool willInit = pending, refuse = false, alloc = false; Outcome r = DONE; bool refused = false, oddOut = false; Given g; string why; vector<string> rest, want;
        auto call = [&](std::function<void()> fn) { if (faultsEnabled() && !pending && !odd && !envBad) { alloc = true; maybeArm(3, 0.3, 40); } r = attempt([&] { try { fn(); } catch (boost::program_options::error &) { refused = true; } catch (OddFail &) { oddOut = true; } catch (std::ios_base::failure &) { refused = true; } }, &why); if (r == FATAL) refused = true; };
        auto anyOpt = [&](bool conf) -> Opt * { for (int t = 0; t < 3; ++t) { Opt *o = opts[choose(S_WORK, 7, opts.size())]; if (!conf || (!o->hidden && !o->flag)) return o; } return NULL; };
        const char *name = "?"; bool parse = false; unsigned firedBefore = faultFired(); (void)firedBefore;
        switch (op) {
        case 0: if (serial < 40) { name = "registering"; mk(); } else name = "nothing"; break;
        case 1: case 2: { name = "a command line"; parse = true; bool allowUn = choose(S_WORK, 20, 2), bads = choose(S_WORK, 21, 3) == 2; vector<string> args; int n = choose(S_WORK, 22, 7);
            for (int k = 0; k < n; ++k) { unsigned w = choose(S_WORK, 23, 8); if (w == 6 && (allowUn || (bads && choose(S_WORK, 24, 3) == 2))) { static const char *const un[] = {"file", "--zzz", "--zzz=3", "other file", "k=v"}; string t = un[choose(S_WORK, 25, 5)]; args.push_back(t); want.push_back(t); if (!allowUn) refuse = true; continue; }
                Opt *o = anyOpt(false); if (!o) continue; string t; if (!give(g, o, refuse, bads, false, t)) continue; unsigned form = choose(S_WORK, 26, 3);
                if (o->flag) args.push_back(form == 1 && o->shortName ? string("-") + o->shortName : "--" + o->name);
                else if (t[0] == '-' || form == 0) args.push_back("--" + o->name + "=" + t);
                else if (form == 1 && o->shortName) { args.push_back(string("-") + o->shortName); args.push_back(t); }
                else { args.push_back("--" + o->name); args.push_back(t); } }
            string l; for (auto &a : args) l += " '" + a + "'"; note("   arguments:%s", l.c_str());
            bool viaArgv = choose(S_WORK, 27, 2); vector<char *> av; string p0 = "prog"; av.push_back(&p0[0]); for (auto &a : args) av.push_back(&a[0]); 
            call([&] { rest = viaArgv ? parseCommandLine((int)av.size(), &av[0], allowUn) : parseCommandLine(args, allowUn); }); break; }
        case 3: { name = "a config file"; parse = true; content.clear(); bool bads = choose(S_WORK, 30, 4) == 3; int n = choose(S_WORK, 31, 9); string sec;
            for (int k = 0; k < n; ++k) { unsigned w = choose(S_WORK, 32, 8); if (w == 6) { content += choose(S_WORK, 33, 2) ? "# a remark\n" : "\n"; continue; } if (w == 7 && bads) { content += choose(S_WORK, 34, 2) ? "zzz=1\n" : "no sense\n"; refuse = true; continue; }
                Opt *o = anyOpt(true); if (!o) continue; string t; if (!give(g, o, refuse, bads, true, t)) continue; size_t dot = o->name.find('.'); string key = o->name;
                if (dot != string::npos) { if (sec != o->name.substr(0, dot)) { if (sec.empty() && choose(S_WORK, 35, 2)) { } else { sec = o->name.substr(0, dot); content += "[" + sec + "]\n"; } } if (!sec.empty()) key = o->name.substr(dot + 1); } else if (!sec.empty()) { g[o].pop_back(); if (t == "oops") refuse = refuse && bads; content += "# out of place\n"; continue; }
                content += key + (choose(S_WORK, 36, 2) ? " = " : "=") + t + (choose(S_WORK, 37, 4) == 3 ? "   # why" : "") + "\n"; }
            if (refuse) { // the refusal must come from what the file says, so judge by the text alone
                bool sure = content.find("oops") != string::npos || content.find("zzz") != string::npos || content.find("no sense") != string::npos; for (auto &p : g) if (!p.first->multi && p.second.size() > 1) sure = true; refuse = sure; }
            if (content.size() && choose(S_WORK, 38, 3) == 2) content.erase(content.size() - 1);
            note("   file:\n%s", content.c_str()); bool stream = choose(S_WORK, 39, 3) == 2; f.max_chunk = choose(S_IO, 1, 2) ? range(S_IO, 2, 1, 9) : 0;
            if (faultsEnabled()) { if (chance(S_FAULT, 4, 0.3)) { f.fail_at = choose(S_FAULT, 5, content.size() + 1); static const int e[] = {EIO, EISDIR, ESTALE}; f.fail_errno = e[choose(S_FAULT, 6, 3)]; f.fail_once = choose(S_FAULT, 7, 2); } else if (chance(S_FAULT, 8, 0.1)) { static const int e[] = {ENOENT, EACCES, EMFILE}; f.open_errno = e[choose(S_FAULT, 9, 3)]; } if (chance(S_FAULT, 10, 0.3)) f.p_eintr = 0.3; }
            if (f.open_errno) stream = false; unsigned open0 = f.openNow();
            call([&] { if (stream) { std::ifstream in("/sim/options.conf"); parseConfigFile(in); } else parseConfigFile("/sim/options.conf"); });
            SIM_CHECK(f.openNow() == open0, "file-leaked", "the config file stays open"); break; }
        case 4: { Opt *o = anyOpt(false); if (!o) break; name = "set"; unsigned n = range(S_WORK, 40, 0, 999); o->set(n); o->used = o->flag ? n % 2 : true; switch (o->kind) { case 0: o->val = rep(mkv<int>(n)); break; case 1: o->val = rep(mkv<double>(n)); break; case 2: o->val = rep(mkv<string>(n)); break; case 3: o->val = rep(mkv<Odd>(n)); break; case 4: o->val = rep(mkv<vector<int> >(n)); break; case 5: o->val = rep(mkv<vector<string> >(n)); break; default: o->val = n % 2 ? "1" : "0"; } break; }
        case 5: { name = "usage"; std::ostringstream out; string argv0 = "prog" + string(choose(S_WORK, 50, 30), 'x'); if (choose(S_WORK, 51, 3) == 2) { string add; for (int k = choose(S_WORK, 52, 12); k >= 0; --k) add += string(1 + choose(S_WORK, 53, 20), 'a' + k) + (choose(S_WORK, 54, 6) == 5 ? "\n" : " "); programOptionsHelp(add); extra += add; }
            alloc = false; std::streambuf *old = std::cout.rdbuf(out.rdbuf()); r = attempt([&] { programOptionsUsage(argv0); }, &why); std::cout.rdbuf(old); refused = r == FATAL;
            if (r == DONE) { string o = out.str(); size_t at = o.find("Allowed options"); SIM_CHECK(at != string::npos, "usage-wrong", "the usage has no options: %s", o.c_str()); string head = o.substr(0, at); SIM_CHECK(strip(head) == strip("Usage: " + argv0 + " [options] " + extra), "usage-wrong", "the usage line reads '%s', the help text is '%s'", head.c_str(), extra.c_str());
                if (ready && !envBad) { size_t b = 0; while (b < head.size()) { size_t e = head.find('\n', b); if (e == string::npos) e = head.size(); SIM_CHECK(e - b <= width, "usage-too-wide", "a line of %zu characters with %u columns", e - b, width); b = e + 1; } }
                string body = strip(o.substr(at)); for (Opt *p : opts) { size_t c = 0; string k = "--" + p->name; for (size_t x = body.find(k); x != string::npos; x = body.find(k, x + 1)) ++c; SIM_CHECK(c == (p->known && !p->hidden ? 1u : 0u) || (!p->known && !p->hidden && p->maybe && c == 1), "usage-wrong", "option --%s is shown %zu times", p->name.c_str(), c); } }
            SIM_CHECK((r == DONE) == !envBad, "usage-refused", "usage %s: %s", r == DONE ? "accepted COLUMNS=wide" : "failed", why.c_str()); if (r == DONE) ready = true; odd_fail = odd = false; break; }
        }
        if (parse) {
            ++parses; bool readFailed = op == 3 && (f.open_errno || f.fired); bool opened = !(op == 3 && f.open_errno);
            bool envStops = willInit && !ready && envBad && opened; bool af = alloc && r == FAILED;
            if (willInit && opened && !odd && !envStops) { pending = false; for (Opt *o : opts) o->known = true; ready = true; }
            if (odd) { if (!odd_fired) odd = false; else { SIM_CHECK(oddOut, "failure-swallowed", "a failing default value went unnoticed"); ready = true; nt = true; fault("default-value-fails"); for (Opt *o : opts) o->maybe = true; } if (!odd && !envStops && opened) { pending = false; ready = true; for (Opt *o : opts) o->known = true; } }
            if (envStops) fault("bad-columns"); if (readFailed) { fault("config-read-fails"); nt = true; }
            bool fail = refuse || readFailed || envStops || oddOut; bool done = r == DONE && !refused && !oddOut;
            SIM_CHECK(!(done && readFailed), "partial-file-accepted", "a config file that could not be %s completely was accepted", f.open_errno ? "opened" : "read");
            SIM_CHECK(!(done && refuse), "nonsense-accepted", "%s with an unknown option, a bad value or a repeated single option was accepted", name);
            SIM_CHECK(!done || !fail, "failure-ignored", "%s was accepted although it could not be processed", name);
            SIM_CHECK(done || fail || (alloc && faultFired()), "valid-use-refused", "%s was refused: %s", name, why.c_str());
            if (done) { finish(g, false); SIM_CHECK(rest == want, "rest-wrong", "%zu words were left over, expected %zu", rest.size(), want.size()); } else { nt = true; probe("refused"); if (af) finish(g, true); }
        }
        note("  %d: %s -> %s", i, name, r == DONE && !refused && !oddOut ? "done" : "refused"); odd_fail = false; string after = name; checkAll(after.c_str()); stateHash(op);
    }
    if (nt || parses > 2) nontrivial();
}
}

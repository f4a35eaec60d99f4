// V02: histograms, sequences, series and groups of statistics, against the list of the values they accepted
#include "elem.hpp"
#include <math.h>
#include <limits>
#include <memory>
#include <Lintel/StatsHistogram.hpp>
#include <Lintel/StatsSequence.hpp>
#include <Lintel/StatsSeries.hpp>
#include <Lintel/StatsSeriesGroup.hpp>
#include <Lintel/StatsEMA.hpp>
#include <Lintel/StatsMaker.hpp>
#include <sstream>
namespace {
struct Val { double at, data; };
typedef vector<Val> Vals;
bool near(double a, double b, double mag) { return a == b || fabs(a - b) <= 1e-9 * (fabs(mag) + fabs(a) + fabs(b)); }
// what every collector says about the values it took
void totals(const Stats &s, const vector<double> &v, const char *when) {
    SIM_CHECK(s.countll() == v.size(), "count-wrong", "%llu values counted %s, %zu were accepted", s.countll(), when, v.size()); if (v.empty()) { SIM_CHECK(s.mean() == 0 && s.total() == 0, "totals-wrong", "mean %g and total %g of no values %s", s.mean(), s.total(), when); return; }
    double mn = v[0], mx = v[0], sum = 0, sq = 0, mag = 0; for (double d : v) { if (d < mn) mn = d; if (d > mx) mx = d; sum += d; sq += d * d; mag += fabs(d); }
    SIM_CHECK(s.min() == mn && s.max() == mx, "extremes-wrong", "[%g,%g] %s, the accepted values span [%g,%g]", s.min(), s.max(), when, mn, mx);
    SIM_CHECK(near(s.total(), sum, mag) && near(s.mean(), sum / v.size(), mag / v.size()) && near(s.total_sq(), sq, sq), "totals-wrong", "total %.12g, mean %.12g, squares %.12g %s; the accepted values give %.12g, %.12g, %.12g", s.total(), s.mean(), s.total_sq(), when, sum, sum / v.size(), sq);
    double m = sum / v.size(), var = sq / v.size() - m * m; SIM_CHECK(fabs(s.variance() - var) <= 1e-9 * (sq / v.size()), "totals-wrong", "variance %.12g %s, the accepted values have %.12g", s.variance(), when, var); }
vector<double> datas(const Vals &v) { vector<double> r; for (const Val &x : v) r.push_back(x.data); return r; }
struct Snap { double low, high; unsigned n; vector<unsigned long> bins; vector<double> vals; unsigned long long count; double total; bool operator==(const Snap &o) const { return low == o.low && high == o.high && n == o.n && bins == o.bins && vals == o.vals && count == o.count && total == o.total; } };
double accum(const StatsHistogram *h, unsigned i) { if (const StatsHistogramUniformAccum *u = dynamic_cast<const StatsHistogramUniformAccum *>(h)) return u->value(i); if (const StatsHistogramLogAccum *l = dynamic_cast<const StatsHistogramLogAccum *>(h)) return l->value(i); return 0; }
Snap snap(const StatsHistogram *h) { Snap s; s.low = h->low(); s.high = h->high(); s.n = h->numBins(); for (unsigned i = 0; i < s.n; ++i) { s.bins.push_back((*h)[i]); s.vals.push_back(accum(h, i)); } s.count = h->countll(); s.total = h->total(); return s; }
struct Hist { StatsHistogram *h; unsigned kind; bool log, acc, grow, scale, exact; unsigned n; double low, high, unit; Vals ref; Snap first; };
// every accepted value is in the one bin whose bounds hold it; outliers of a fixed histogram in the end bins
void bins(Hist &x, const char *when) {
    Unlib u; const StatsHistogram *h = x.h; unsigned n = h->numBins(); double low = h->low(), high = h->high(); totals(*h, datas(x.ref), when);
    SIM_CHECK(h->isGrowable() == x.grow && h->isScalable() == x.scale, "says-otherwise", "a histogram made %s and %s says otherwise", x.grow ? "growable" : "of fixed width", x.scale ? "scalable" : "without scaling");
    if (!x.grow) SIM_CHECK(n == x.first.n, "bins-changed", "%u bins %s, %u at first", n, when, x.first.n); if (!x.grow && !x.scale) SIM_CHECK(low == x.low && high == x.high, "range-changed", "range [%g,%g) %s, it was made with [%g,%g)", low, high, when, x.low, x.high);
    if (x.grow) SIM_CHECK(x.exact ? h->binWidth() == x.unit : near(h->binWidth(), x.unit, 0), "width-changed", "bins are %g wide %s, at first %g", h->binWidth(), when, x.unit);
    if (x.grow || x.scale) SIM_CHECK(low <= x.low * (1 + 1e-9 * (x.low > 0 ? 1 : -1)) && high >= x.high * (1 - 1e-9 * (x.high > 0 ? 1 : -1)), "range-changed", "range [%g,%g) %s lacks some of [%g,%g)", low, high, when, x.low, x.high);
    SIM_CHECK(near(h->binlow(0), low, x.exact || x.log ? 0 : high - low) && near(h->binhigh(n - 1), high, x.exact || x.log ? 0 : high - low), "bounds-wrong", "bins run from %g to %g %s, the range is [%g,%g)", h->binlow(0), h->binhigh(n - 1), when, low, high);
    vector<unsigned long> sure(n, 0), maybe(n, 0); vector<double> val(n, 0), mag(n, 0); unsigned long sum = 0; double span = x.log ? 0 : high - low;
    for (const Val &v : x.ref) {
        double slack = x.exact ? 0 : 1e-9 * (fabs(v.at) + span); if (x.grow || x.scale) SIM_CHECK(v.at >= low - slack && v.at <= high + slack && (slack || v.at < high), "value-outside", "%.17g was accepted, but the range %s is [%.17g,%.17g)", v.at, when, low, high);
        unsigned a = 0, b = n; while (a + 1 < b) { unsigned m = (a + b) / 2; if (h->binlow(m) <= v.at) a = m; else b = m; }
        bool amb = false; if (slack) { if (a > 0 && v.at - h->binlow(a) <= slack) { ++maybe[a]; ++maybe[a - 1]; mag[a - 1] += 1; mag[a] += 1; amb = true; } else if (a + 1 < n && h->binhigh(a) - v.at <= slack) { ++maybe[a]; ++maybe[a + 1]; mag[a] += 1; mag[a + 1] += 1; amb = true; } } if (!amb) { ++sure[a]; val[a] += v.data; } }
    unsigned long most = 0; for (unsigned i = 0; i < n; ++i) { unsigned long c = (*h)[i]; sum += c; if (c > most) most = c; SIM_CHECK(c >= sure[i] && c <= sure[i] + maybe[i], "bin-wrong", "bin %u of %u [%.12g,%.12g) holds %lu %s, %lu accepted values belong there", i, n, h->binlow(i), h->binhigh(i), c, when, sure[i]); if (x.acc && !mag[i]) SIM_CHECK(near(accum(h, i), val[i], 1), "accumulated-wrong", "bin %u [%g,%g) accumulated %.12g %s, its values give %.12g", i, h->binlow(i), h->binhigh(i), accum(h, i), when, val[i]); }
    SIM_CHECK(sum == h->countll(), "bins-dont-add-up", "the bins hold %lu values %s, %llu were counted", sum, when, h->countll());
    SIM_CHECK(fatal([&] { (*h)[n]; }), "past-the-end", "bin %u of %u could be read", n, n);
    if (sum) { double mode = h->mode(); bool ok = false; for (unsigned i = 0; i < n; ++i) if ((*h)[i] == most && near(h->bincenter(i), mode, 0)) ok = true; SIM_CHECK(ok, "mode-wrong", "mode %g %s is not the middle of a fullest bin", mode, when);
        static const double ps[] = {0.5, 1, 0.1, 0.9, 0.999}; for (double p : ps) { double q = h->percentile(p); unsigned long c = 0; unsigned i = 0; while (i < n && c + (*h)[i] < p * sum * (1 - 1e-6)) c += (*h)[i++]; double lo = h->binlow(i); c = 0; for (i = 0; i < n; ++i) { c += (*h)[i]; if (c >= p * sum * (1 + 1e-6)) break; } double hi = h->binhigh(i < n ? i : n - 1); SIM_CHECK(q >= lo - 1e-9 * (fabs(lo) + span) && q <= hi + 1e-9 * (fabs(hi) + span), "percentile-wrong", "percentile(%g) = %g %s, the bins put it in [%g,%g]", p, q, when, lo, hi); } }
}
StatsHistogram *build(const Hist &x) {
    switch (x.kind) { case 0: return new StatsHistogramUniform(x.n, x.low, x.high, x.scale, x.grow); case 1: return new StatsHistogramUniformAccum(x.n, x.low, x.high, x.scale, x.grow); case 2: return new StatsHistogramLog(x.n, x.low, x.high, x.scale); default: return new StatsHistogramLogAccum(x.n, x.low, x.high); } }
void config(Hist &x, unsigned sub) {
    x.h = NULL; x.kind = choose(S_CFG, sub, 4); x.log = x.kind >= 2; x.acc = x.kind & 1; unsigned ext = choose(S_CFG, sub + 1, 3); x.scale = ext == 1 && x.kind != 3; x.grow = ext == 2 && !x.log; x.n = 1 + choose(S_CFG, sub + 2, 13); unsigned even = (x.n + 1) / 2 * 2;
    if (x.log) { x.exact = false; static const double lows[] = {1, 0.25, 7, 1e-3}; x.low = lows[choose(S_CFG, sub + 3, 4)]; static const double ratio[] = {16, 2, 1.5, 1000}; x.high = x.low * ratio[choose(S_CFG, sub + 4, 4)]; }
    else { x.exact = choose(S_CFG, sub + 3, 3) != 2; double w = ldexp(1, (int)choose(S_CFG, sub + 4, 6) - 3); x.low = (int)choose(S_CFG, sub + 5, 41) - 20; x.high = x.low + w * even; if (!x.exact) { x.high = x.low + 0.1 * (1 + choose(S_CFG, sub + 6, 70)); if (choose(S_CFG, sub + 7, 2)) x.low += 1 / 3., x.high += 1 / 3.; } } 
    x.unit = (x.high - x.low) / even; }
double pick(const Hist &x) {
    double low = x.h->low(), high = x.h->high(), w = x.h->binWidth(0); unsigned n = x.h->numBins(), how = chooseW(S_WORK, 20, {10, 3, 2, 2, 1});
    if (x.log) { double e; if (x.scale && how && (high > 1e30 || low < 1e-30)) how = 0; if (how == 0) { e = (choose(S_WORK, 21, 997) + 0.37) / 997; return low * pow(high / low, e); } if (how == 1) return high * (1.01 + choose(S_WORK, 22, 30)); if (how == 2) return low / (1.01 + choose(S_WORK, 23, 30)); if (how == 3) return nextafter(choose(S_WORK, 24, 2) ? high : low, choose(S_WORK, 25, 2) ? 0 : 1e300); return high * 1e6; }
    if ((x.grow && n > 300) || (x.scale && high - low > 1e7)) how = how == 1 || how == 4 || (how == 2 && x.grow) ? 0 : how; // it has grown enough
    switch (how) {
    case 0: { double v = low + w * choose(S_WORK, 21, n) + w / 4 * choose(S_WORK, 22, 4); return v; }
    case 1: { double d = choose(S_WORK, 22, 2 * n + 1) * w / 4; return choose(S_WORK, 23, 2) ? low - d - w / 4 : high + d; }
    case 2: if (!x.exact || !(x.scale || x.grow)) return nextafter(choose(S_WORK, 24, 2) ? low : high, choose(S_WORK, 25, 2) ? -1e300 : 1e300); return low;
    case 3: return nextafter(high, -1e300);
    default: { double d = (x.grow ? 40 : 1000) * w * (1 + choose(S_WORK, 22, 8)); if (!x.grow && !x.scale) d *= 1e6; return choose(S_WORK, 23, 2) ? low - d : high + d; } } }
void make(Hist &x) {
    for (int tries = 0;; ++tries) { maybeArm(0, 0.4, 4); size_t before = libBlocks(); StatsHistogram *h = NULL; string msg; Outcome o = attempt([&] { h = build(x); }, &msg); SIM_CHECK(o != FATAL, "valid-use-refused", "a histogram of %u bins over [%g,%g): %s", x.n, x.low, x.high, msg.c_str()); if (o == DONE) { x.h = h; break; } nontrivial(); probe("failed-constructor"); SIM_CHECK(libBlocks() == before, "memory-leaked", "a constructor that failed keeps %zu blocks", libBlocks() - before); }
    x.ref.clear(); x.first = snap(x.h); x.low = x.first.low; }
SIM_SCENARIO("V02", histograms, 4) {
    throwingAsserts(); Hist x; config(x, 0); size_t base = libBlocks(); make(x); int ops = range(S_CFG, 30, 2, tierThorough() ? 40 : 16); bool nt = false; size_t total = 0;
    note("   kind %u, %u bins [%g,%g)%s%s%s", x.kind, x.n, x.low, x.high, x.scale ? " scalable" : "", x.grow ? " growable" : "", x.exact ? "" : " inexact"); bins(x, "at first");
    for (int i = 0; i < ops; ++i) {
        unsigned op = chooseW(S_WORK, 0, {8, 2, 1, 1, 1}); ev("op", op, (long)x.ref.size());
        switch (op) {
        case 0: case 1: { int m = 1 + choose(S_WORK, 1, op ? 3 : 40); for (int k = 0; k < m && total < (tierThorough() ? 2000 : 500); ++k, ++total) { Val v; v.at = pick(x); v.data = v.at; bool pair = x.acc && choose(S_WORK, 2, 2); if (pair) v.data = (int)choose(S_WORK, 3, 2001) - 1000; if (x.log && !x.acc && v.at <= 0) continue;
                bool in = v.at >= x.h->low() && v.at < x.h->high(); bool snapIt = !in || choose(S_WORK, 4, 16) == 15; Snap s; if (snapIt) s = snap(x.h); maybeArm(1, in ? 0.02 : 0.3, 3); string msg; Outcome o = attempt([&] { if (pair || (op == 1)) x.h->add(v.at, v.data); else x.h->add(v.at); }, &msg);
                if (o == DONE) x.ref.push_back(v); else if (o == FAILED) { nt = true; note("   adding %.17g failed", v.at); if (snapIt) SIM_CHECK(snap(x.h) == s, "half-added", "adding %g failed, and the histogram has changed", v.at); bins(x, "after a failed add"); } else violate("valid-use-refused", "adding %.17g to [%g,%g): %s", v.at, x.h->low(), x.h->high(), msg.c_str());
                if (!in) { nt = true; probe(x.grow ? "outlier-grow" : x.scale ? "outlier-scale" : "outlier-fixed"); if (choose(S_WORK, 5, 16) == 15) bins(x, "after an outlier"); } } break; }
        case 2: { Snap s = snap(x.h); double bad = std::numeric_limits<double>::infinity(); unsigned w = choose(S_WORK, 6, 4); if (w == 1) bad = -bad; if (w == 2) bad = x.log ? 0 : 1.7e308; if (w == 3) bad = x.log ? -1 : -1.7e308; bool refuses = x.grow || x.scale; if (x.log) refuses = !x.acc && (bad <= 0 || x.scale); if (!refuses) break; nt = true; bool pair = x.acc && choose(S_WORK, 7, 2); maybeArm(4, 0.2, 5); Outcome o = attempt([&] { if (pair) x.h->add(bad, 1); else x.h->add(bad); }); SIM_CHECK(o != DONE, "bad-value-taken", "%g was accepted", bad); SIM_CHECK(snap(x.h) == s, "half-added", "%g was refused, and the histogram has changed", bad); probe("refused"); break; }
        case 3: if (!x.acc) { Snap s = snap(x.h); Outcome o = attempt([&] { x.h->add(x.low + x.unit, x.low + 2 * x.unit); }); SIM_CHECK(o == FATAL, "bad-value-taken", "a value other than its index was accepted"); SIM_CHECK(snap(x.h) == s, "half-added", "a refused pair changed the histogram"); } else if (choose(S_WORK, 8, 3) == 2) { { Lib l; x.h->reset(); } x.ref.clear(); x.low = x.h->low(); x.high = x.h->high(); x.first = snap(x.h); probe("reset"); } break;
        case 4: { size_t b = libBlocks(); Stats *o = NULL; maybeArm(2, 0.4, 4); Outcome r = attempt([&] { o = x.h->another_new(); }); if (r == FAILED) { SIM_CHECK(libBlocks() == b, "memory-leaked", "another_new failed and keeps %zu blocks", libBlocks() - b); break; } SIM_CHECK(r == DONE, "valid-use-refused", "another_new refused"); StatsHistogram *h = dynamic_cast<StatsHistogram *>(o); SIM_CHECK(h && h->numBins() >= x.h->numBins() && h->numBins() <= x.h->numBins() + 1 && h->low() == x.h->low() && h->high() == x.h->high() && h->count() == 0 && h->isGrowable() == x.grow && h->isScalable() == x.scale && h->getType() == x.h->getType(), "another-differs", "another_new is not like its original"); { Lib l; delete o; } SIM_CHECK(libBlocks() == b, "memory-leaked", "another_new keeps %zu blocks", libBlocks() - b); break; }
        }
        bins(x, "afterwards"); stateHash(x.h->numBins() * 8 + x.kind * 2 + (x.ref.size() > 20));
    }
    if (x.ref.size() > 60) nt = true; { Lib l; delete x.h; } SIM_CHECK(libBlocks() == base, "memory-leaked", "%ld blocks remain after the histogram is gone", (long)(libBlocks() - base)); if (nt) nontrivial();
}
SIM_SCENARIO("V02", sequences, 2) {
    throwingAsserts(); bool nt = false; size_t base = libBlocks(); unsigned keep = 2 * (1 + choose(S_CFG, 0, 9)); StatsSequence::mode modes[] = {StatsSequence::MergeSum, StatsSequence::MergeMean, StatsSequence::MergeMax}; unsigned m = choose(S_CFG, 1, 3);
    SIM_CHECK(fatal([&] { StatsSequence s(keep + 1); }) && fatal([&] { StatsSequence s(0); }), "bad-value-taken", "a sequence of %u values was made", keep + 1);
    StatsSequence *s = NULL; for (;;) { maybeArm(0, 0.3, 3); Outcome o = attempt([&] { s = new StatsSequence(keep, modes[m]); }); if (o == DONE) break; SIM_CHECK(o == FAILED, "valid-use-refused", "a sequence of %u values refused", keep); } vector<double> ref; bool neg = choose(S_CFG, 2, 3) != 0, onlyNeg = choose(S_CFG, 3, 4) == 3; int ops = range(S_CFG, 4, 2, 24);
    auto check = [&](const char *when) {
        Unlib u; totals(*s, ref, when); unsigned long p = 1; while (p * keep < ref.size()) p *= 2; SIM_CHECK((unsigned long)s->getPointsPerBucket() == p, "wrong-width", "%d values for each place %s; %zu values in %u places need %lu", s->getPointsPerBucket(), when, ref.size(), keep, p);
        unsigned n = s->maxSeqNum(); SIM_CHECK(n == ref.size() / p, "wrong-length", "%u places %s, %zu values by %lu make %zu", n, when, ref.size(), p, ref.size() / p);
        for (unsigned i = 0; i < n; ++i) { double e = ref[i * p]; for (unsigned long k = 1; k < p; ++k) { double v = ref[i * p + k]; if (m == 2) e = v > e ? v : e; else e += v; } if (m == 1) e /= p; double got = s->get(i); SIM_CHECK(near(got, e, 0), "place-wrong", "place %u of %u is %.12g %s, its %lu values give %.12g", i, n, got, when, p, e); }
        SIM_CHECK(fatal([&] { s->get(n); }), "past-the-end", "place %u of %u could be read", n, n); if (n) SIM_CHECK(fatal([&] { s->setMergeMode(modes[(m + 1) % 3]); }) && fatal([&] { s->setIntervalWidth(2); }), "bad-value-taken", "the mode was changed with values there"); };
    check("at first");
    for (int i = 0; i < ops; ++i) { unsigned op = chooseW(S_WORK, 0, {8, 1, 1}); ev("op", op, (long)ref.size());
        if (op == 0) { int c = 1 + choose(S_WORK, 1, 3 * keep); for (int k = 0; k < c; ++k) { double v = (int)choose(S_WORK, 2, 4001) - (neg ? 2000 : 0); if (onlyNeg) v = -1 - fabs(v); v /= 4; maybeArm(1, 0.1, 1); Outcome o = attempt([&] { s->add(v); }); if (o == DONE) ref.push_back(v); else { SIM_CHECK(o == FAILED, "valid-use-refused", "adding %g refused", v); nt = true; probe("failed-add"); check("after a failed add"); } } }
        else if (op == 1) { { Lib l; s->reset(); } ref.clear(); } else if (ref.empty()) { m = choose(S_WORK, 3, 3); s->setMergeMode(modes[m]); }
        check("afterwards"); if (ref.size() > keep) nt = true; stateHash(ref.size()); }
    { Lib l; delete s; } SIM_CHECK(libBlocks() == base, "memory-leaked", "%ld blocks remain after the sequence is gone", (long)(libBlocks() - base)); if (nt) nontrivial();
}
SIM_SCENARIO("V02", series, 2) {
    throwingAsserts(); size_t base = libBlocks(); bool nt = false; unsigned lag = 1 + choose(S_CFG, 0, 9); StatsSeries *s = NULL; for (;;) { maybeArm(0, 0.5, 4); size_t b = libBlocks(); Outcome o = attempt([&] { s = new StatsSeries(lag); }); if (o == DONE) break; SIM_CHECK(o == FAILED, "valid-use-refused", "a series of %u lags refused", lag); nt = true; SIM_CHECK(libBlocks() == b, "memory-leaked", "a constructor that failed keeps %zu blocks", libBlocks() - b); }
    static const double rates[] = {0.1, 0.5, 0.03, 0.9}; vector<double> decay; for (unsigned i = 0, k = 1 + choose(S_CFG, 1, 3); i < k; ++i) decay.push_back(rates[choose(S_CFG, 2, 4)]); StatsEMA *e = NULL; for (;;) { maybeArm(1, 0.5, 6); size_t b = libBlocks(); Outcome o = attempt([&] { e = new StatsEMA(decay); }); if (o == DONE) break; SIM_CHECK(o == FAILED, "valid-use-refused", "decaying averages refused"); nt = true; SIM_CHECK(libBlocks() == b, "memory-leaked", "a constructor that failed keeps %zu blocks", libBlocks() - b); }
    vector<double> ref, all; int ops = range(S_CFG, 3, 1, 16); double centre = choose(S_CFG, 4, 3) * 50.; Stats *plain = NULL; { Lib l; plain = new Stats; } vector<double> pref;
    auto check = [&](const char *when) { Unlib u; totals(*s, ref, when); double n = ref.size(), mean = 0, mag = 0; for (double v : ref) mean += v / n, mag += v * v / n;
        for (unsigned k = 0; k <= lag; ++k) { double c = 0; for (size_t t = 0; t + k < ref.size(); ++t) c += (ref[t] - mean) * (ref[t + k] - mean); if (n) c /= n; double got = s->autocovariance(k); SIM_CHECK(fabs(got - c) <= 1e-9 * (mag + 1) * (n + 1), "covariance-wrong", "autocovariance(%u) of %zu values is %.12g %s, the definition gives %.12g", k, ref.size(), got, when, c); }
        SIM_CHECK(fatal([&] { s->autocovariance(lag + 1); }), "past-the-end", "lag %u of %u could be asked for", lag + 1, lag);
        totals(*e, all, when); double lo = 1e300, hi = -1e300; for (size_t i = 0; i < decay.size(); ++i) { double v = 0, sum = 0; for (size_t t = 0; t < all.size(); ++t) { sum += all[t]; if ((double)(t + 1) > 1 / decay[i]) v = (1 - decay[i]) * v + decay[i] * all[t]; else v = sum / (t + 1); } SIM_CHECK(fabs(e->getEMA(i) - v) <= 1e-9 * (fabs(v) + 1000), "average-wrong", "the average decaying by %g of %zu values is %.12g %s, the definition gives %.12g", decay[i], all.size(), e->getEMA(i), when, v); if (e->getEMA(i) < lo) lo = e->getEMA(i); if (e->getEMA(i) > hi) hi = e->getEMA(i); } SIM_CHECK(e->minEMA() == lo && e->maxEMA() == hi, "average-wrong", "extreme averages %g and %g %s, they are %g and %g", e->minEMA(), e->maxEMA(), when, lo, hi); };
    for (int i = 0; i < ops; ++i) { unsigned op = chooseW(S_WORK, 0, {8, 1, 2}); ev("op", op, (long)ref.size()); if (op == 0) for (int k = 0, m = 1 + choose(S_WORK, 1, 2 * lag); k < m; ++k) { double v = centre + ((int)choose(S_WORK, 2, 801) - 400) / 8.; { Lib l; s->add(v); e->add(v); } ref.push_back(v); all.push_back(v); }
        else if (op == 1) { Lib l; s->reset(); ref.clear(); } else { if (choose(S_WORK, 3, 2)) { plain->add(*s); pref.insert(pref.end(), ref.begin(), ref.end()); } else { plain->add(-1.5); pref.push_back(-1.5); } totals(*plain, pref, "after adding another's"); }
    check("afterwards"); if (ref.size() > lag) nt = true; stateHash(ref.size()); }
    { Lib l; delete s; delete e; delete plain; } SIM_CHECK(libBlocks() == base, "memory-leaked", "%ld blocks remain after the series is gone", (long)(libBlocks() - base)); if (nt) nontrivial();
}
StatsHistogram::HistMode hmodes[] = {StatsHistogram::Uniform, StatsHistogram::Log, StatsHistogram::UniformAccum, StatsHistogram::LogAccum};
SIM_SCENARIO("V02", ranges, 2) {
    throwingAsserts(); size_t base = libBlocks(); bool nt = false; unsigned n = 1 + choose(S_CFG, 0, 4); vector<double> at(1, choose(S_CFG, 1, 2) ? -4 : 0.5); vector<StatsHistogram::HistMode> modes; vector<int> counts; bool one = choose(S_CFG, 2, 2), any = false;
    for (unsigned i = 0; i < n; ++i) { at.push_back(at.back() + (1 << choose(S_CFG, 3, 5))); unsigned m = choose(S_CFG, 4, 4); if (one && i) m = modes[0] == hmodes[0] ? 0 : modes[0] == hmodes[1] ? 1 : modes[0] == hmodes[2] ? 2 : 3; modes.push_back(hmodes[m]); counts.push_back(one && i ? counts[0] : 1 + (int)choose(S_CFG, 5, 8)); if (at[i] <= 0 && (m & 1)) any = true; }
    StatsHistogramGroup *g = NULL; auto mk = [&] { return one ? new StatsHistogramGroup(modes[0], counts[0], at) : new StatsHistogramGroup(modes, counts, at); };
    for (;;) { maybeArm(0, 0.5, 14); size_t b = libBlocks(); Outcome o = attempt([&] { g = mk(); }); if (o == DONE) break; if (o == FATAL) { SIM_CHECK(any, "valid-use-refused", "a group of %u ranges refused", n); SIM_CHECK(libBlocks() == b, "memory-leaked", "a refused group keeps %zu blocks", libBlocks() - b); nontrivial(); probe("refused-group"); return; } nt = true; SIM_CHECK(libBlocks() == b, "memory-leaked", "a constructor that failed keeps %zu blocks", libBlocks() - b); }
    SIM_CHECK(!any, "bad-value-taken", "a logarithmic range starting at or below zero was made"); Vals ref;
    auto check = [&](const char *when) { Unlib u; totals(*g, datas(ref), when); Vals low, high; vector<Vals> in(n); for (const Val &v : ref) { if (v.at < at[0]) low.push_back(v); else if (v.at >= at[n]) high.push_back(v); else { unsigned i = 0; while (v.at >= at[i + 1]) ++i; in[i].push_back(v); } } totals(g->getLow(), datas(low), "below"); totals(g->getHigh(), datas(high), "above");
        for (unsigned i = 0; i < n; ++i) { const StatsHistogram &h = g->getHistogram(i); totals(h, datas(in[i]), "in a range"); unsigned long s = 0; for (unsigned k = 0; k < h.numBins(); ++k) s += h[k]; SIM_CHECK(s == h.countll(), "bins-dont-add-up", "range %u: the bins hold %lu values, %llu were counted", i, s, h.countll()); SIM_CHECK(h.low() == at[i] && h.high() == at[i + 1], "range-changed", "range %u is [%g,%g), it was made [%g,%g)", i, h.low(), h.high(), at[i], at[i + 1]); } SIM_CHECK(fatal([&] { g->getHistogram(n); }), "past-the-end", "range %u of %u could be read", n, n); };
    for (int i = 0, ops = range(S_CFG, 6, 1, 14); i < ops; ++i) { unsigned op = chooseW(S_WORK, 0, {8, 3, 1}); ev("op", op, (long)ref.size());
        if (op < 2) for (int k = 0, m = 1 + choose(S_WORK, 1, 30); k < m; ++k) { Val v; unsigned how = choose(S_WORK, 2, 8); v.at = how < 4 ? at[0] + (at[n] - at[0]) * choose(S_WORK, 3, 1000) / 1024. : how == 4 ? at[choose(S_WORK, 4, n + 1)] : how == 5 ? nextafter(at[choose(S_WORK, 4, n + 1)], -1e9) : how == 6 ? at[0] - 1 - choose(S_WORK, 5, 100) : at[n] + choose(S_WORK, 5, 100); v.data = v.at; if (op == 1) v.data = choose(S_WORK, 6, 100); maybeArm(1, 0.05, 3); Outcome o = attempt([&] { if (op == 1) g->add(v.at, v.data); else g->add(v.at); });
            if (o == DONE) ref.push_back(v); else { nt = true; bool accum = false; if (v.at >= at[0] && v.at < at[n]) { unsigned r = 0; while (v.at >= at[r + 1]) ++r; accum = modes[one ? 0 : r] == hmodes[2] || modes[one ? 0 : r] == hmodes[3]; } else accum = true; SIM_CHECK(o == FAILED || (op == 1 && !accum && v.at != v.data), "valid-use-refused", "adding %g (%g) refused", v.at, v.data); probe("refused"); check("after a refused value"); } }
        else { { Lib l; g->reset(); } ref.clear(); } check("afterwards"); stateHash(ref.size() / 8); }
    if (ref.size() > 40) nt = true; { Lib l; delete g; } SIM_CHECK(libBlocks() == base, "memory-leaked", "%ld blocks remain after the group is gone", (long)(libBlocks() - base)); if (nt) nontrivial();
}
// statistics by name, by time and by kind of access
struct Def { unsigned mode; int n; double low, high; };
string kindOf(const Stats *s) { if (const StatsHistogram *h = dynamic_cast<const StatsHistogram *>(s)) return h->getType() + (h->isGrowable() ? " growing" : "") + (dynamic_cast<const StatsHistogramUniformAccum *>(s) ? " sums" : "") + " " + std::to_string(h->numBins()) + " [" + std::to_string(h->low()) + "," + std::to_string(h->high()) + ")"; if (dynamic_cast<const StatsHistogramGroup *>(s)) return "group"; if (dynamic_cast<const StatsSequence *>(s)) return "sequence"; return "plain"; }
string kindOf(const Def &d) { char b[120]; switch (d.mode) { case 0: return "plain"; case 1: snprintf(b, sizeof b, "uniform %d [%s,%s)", d.n, std::to_string(d.low).c_str(), std::to_string(d.high).c_str()); return b; case 2: snprintf(b, sizeof b, "uniform growing %d [%s,%s)", d.n, std::to_string(d.low).c_str(), std::to_string(d.high).c_str()); return b; case 3: snprintf(b, sizeof b, "log %d [%s,%s)", d.n, std::to_string(d.low).c_str(), std::to_string(d.high).c_str()); return b; case 4: return "group"; case 5: return "sequence"; default: snprintf(b, sizeof b, "uniform sums %d [%s,%s)", d.n, std::to_string(d.low).c_str(), std::to_string(d.high).c_str()); return b; } }
Def define(std::map<string, Def> &defs, const string &name, bool simple) {
    Def d; d.mode = simple ? choose(S_CFG, 20, 3) : choose(S_CFG, 20, 7); d.n = 2 * (1 + choose(S_CFG, 21, 5)); d.low = 1; d.high = 1 + d.n * (1 + choose(S_CFG, 22, 3)); vector<double> r; r.push_back(d.low); r.push_back(d.high); r.push_back(d.high + 5);
    maybeArm(10, 0.5, 3); Outcome o = attempt([&] { switch (d.mode) { case 0: StatsMaker::setModeSimple(name); break; case 1: StatsMaker::setModeHistogram(name, StatsHistogram::Uniform, d.n, d.low, d.high); break; case 2: StatsMaker::setModeHistogram(name, StatsHistogram::Uniform, d.n, d.low, d.high, false, true); break; case 3: StatsMaker::setModeHistogram(name, StatsHistogram::Log, d.n, d.low, d.high); break; case 4: StatsMaker::setModeHistogramGroup(name, StatsHistogram::UniformAccum, d.n, r); break; case 5: StatsMaker::setModeSequence(name, d.n); break; default: StatsMaker::setModeHistogram(name, StatsHistogram::UniformAccum, d.n, d.low, d.high); } });
    SIM_CHECK(o != FATAL, "valid-use-refused", "defining %s refused", name.c_str()); if (o == DONE) defs[name] = d; else { probe("failed-define"); nontrivial(); } return d; }
string expect(const std::map<string, Def> &defs, string name) { for (;;) { std::map<string, Def>::const_iterator i = defs.find(name); if (i != defs.end()) return kindOf(i->second); size_t p = name.rfind('-'); if (p == string::npos) break; while (p > 0 && name[p - 1] == '-') --p; name = name.substr(0, p); if (name.empty()) break; } std::map<string, Def>::const_iterator i = defs.find("default"); return i == defs.end() ? "plain" : kindOf(i->second); }
SIM_SCENARIO("V02", names, 2) {
    throwingAsserts(); std::map<string, Def> defs; static const char *names[] = {"a", "a-b", "default", "a-b-c", "a--b", "b", "-a", "", "a-b--c-d", "a-", "default-x"}; bool nt = false, few = choose(S_CFG, 3, 2); std::set<string> warm;
    for (int i = 0, ops = range(S_CFG, 0, 2, 20); i < ops; ++i) { string name; { Unlib u; name = names[choose(S_WORK, 0, few ? 2 : 11)]; if (choose(S_WORK, 1, 3) == 2) name += "-" + std::to_string(choose(S_WORK, 2, 3)); } unsigned op = choose(S_WORK, 3, 3); ev("op", op, (long)name.size()); note("   %s %s", op ? "make" : "define", name.c_str());
        if (op == 0) { define(defs, name, false); continue; }
        Stats *s = NULL; maybeArm(1, 0.4, 8); size_t b = libBlocks(); Outcome o = attempt([&] { s = StatsMaker::make(name); }); SIM_CHECK(o != FATAL, "valid-use-refused", "making %s refused", name.c_str()); if (o == FAILED) { nt = true; if (warm.count(name)) SIM_CHECK(libBlocks() == b, "memory-leaked", "making %s failed and keeps %zu blocks", name.c_str(), libBlocks() - b); continue; }
        { Unlib u; string k = kindOf(s), e = expect(defs, name); SIM_CHECK(k == e, "wrong-kind", "%s was made as %s, the definitions say %s", name.c_str(), k.c_str(), e.c_str()); if (defs.size() > 1) nt = true; } { Lib l; delete s; } if (warm.count(name)) SIM_CHECK(libBlocks() == b, "memory-leaked", "making and deleting %s keeps %zu blocks", name.c_str(), libBlocks() - b); warm.insert(name); stateHash(defs.size() * 4 + op); }
    if (nt) nontrivial();
}
SIM_SCENARIO("V02", intervals, 2) {
    throwingAsserts(); std::map<string, Def> defs; bool nt = false; define(defs, "x", false); if (defs.count("x") && defs["x"].mode == 3) defs["x"].n = 0; bool refuses = defs.count("x") && defs["x"].mode == 3; { Lib l; for (int i = 0; i < 130; ++i) delete StatsMaker::make("x-" + std::to_string(i)); } size_t base = libBlocks();
    static const double iv[] = {1, 10, 0.5, 3}; double interval = iv[choose(S_CFG, 1, 4)], start = choose(S_CFG, 2, 3) * 100., now = start, last = start; StatsSeriesGroup *g = NULL; SIM_CHECK(fatal([&] { StatsSeriesGroup z("z", 0); }), "bad-value-taken", "a series of intervals of no length was made");
    for (;;) { maybeArm(0, 0.3, 4); size_t b = libBlocks(); Outcome o = attempt([&] { g = new StatsSeriesGroup("x", interval); }); if (o == DONE) break; SIM_CHECK(o == FAILED, "valid-use-refused", "a series refused"); SIM_CHECK(libBlocks() == b, "memory-leaked", "a constructor that failed keeps %zu blocks", libBlocks() - b); }
    vector<std::pair<double, double> > ref; bool started = false; size_t reached = 0; double lastTried = 0; (void)lastTried;
    auto check = [&](const char *when) { Unlib u; vector<double> all; for (auto &p : ref) all.push_back(p.second); totals(*g, all, when); size_t n = g->getSeriesLength(); if (!started) return; size_t least = ref.empty() ? 0 : (size_t)floor((ref.back().first - start) / interval) + 1; SIM_CHECK(n >= least && n <= std::max(reached, least), "wrong-length", "%zu intervals %s, the values span %zu and were tried over %zu", n, when, least, reached);
        vector<vector<double> > in(n); for (auto &p : ref) in[(size_t)floor((p.first - start) / interval)].push_back(p.second); for (size_t i = 0; i < n; ++i) totals(g->getSeriesStat(i), in[i], "in an interval"); SIM_CHECK(fatal([&] { g->getSeriesStat(n); }), "past-the-end", "interval %zu of %zu could be read", n, n); };
    for (int i = 0, ops = range(S_CFG, 3, 1, 30); i < ops; ++i) { unsigned op = chooseW(S_WORK, 0, {12, 1, 1}); ev("op", op, (long)ref.size());
        if (op == 0) { static const double step[] = {0, 0.25, 0.5, 1, 2.5, 5, 0.125}; now += interval * step[choose(S_WORK, 1, 7)] * (choose(S_WORK, 2, 3) == 2 ? 2 : 1); if ((now - start) / interval > 100) break; double v = refuses ? (int)choose(S_WORK, 3, 20) - 2 : (int)choose(S_WORK, 3, 60) - 20; size_t idx = started ? (size_t)floor((now - start) / interval) + 1 : 1; maybeArm(1, 0.4, 5); bool was = started; if (!was) start = now; Outcome o = attempt([&] { g->addTimeSeq(v, now); }); if (idx > reached) reached = idx;
            if (o == DONE) { started = true; ref.push_back(std::make_pair(now, v)); last = now; } else { nt = true; SIM_CHECK(o == FAILED || (refuses && v <= 0), "valid-use-refused", "adding %g at %g refused", v, now); probe("refused"); if (!was && g->getSeriesLength()) started = true; if (!started) reached = 0; note("   adding at %g failed", now); } }
        else if (op == 1) { if (!started || ref.empty()) continue; size_t n = g->getSeriesLength(); Outcome o = attempt([&] { g->addTimeSeq(1, last - 0.125); }); SIM_CHECK(o == FATAL, "bad-value-taken", "a value from the past was accepted"); SIM_CHECK((size_t)g->getSeriesLength() == n, "half-added", "a refused value made an interval"); Outcome p = attempt([&] { g->addTimeSeq(1, std::numeric_limits<double>::quiet_NaN()); }); SIM_CHECK(p == FATAL, "bad-value-taken", "a value at no time was accepted"); }
        else { { Lib l; g->reset(); } ref.clear(); started = false; reached = 0; SIM_CHECK(g->getSeriesLength() == 0, "not-reset", "intervals remain after a reset"); }
        check("afterwards"); if (ref.size() > 8) nt = true; stateHash(reached); }
    { Lib l; delete g; } SIM_CHECK(libBlocks() == base, "memory-leaked", "%ld blocks remain after the series is gone", (long)(libBlocks() - base)); if (nt) nontrivial();
}
SIM_SCENARIO("V02", accesses, 1) {
    throwingAsserts(); std::map<string, Def> defs; bool nt = false; define(defs, "y", true); { Lib l; delete StatsMaker::makeRW("y"); delete StatsMaker::make("k-0"); } size_t base = libBlocks(); StatsRW *rw = NULL; Stats *s[3] = {NULL, NULL, NULL}; unsigned how = choose(S_CFG, 0, 3);
    if (how == 0) { for (;;) { maybeArm(0, 0.5, 8); size_t b = libBlocks(); Outcome o = attempt([&] { rw = StatsMaker::makeRW("y"); }); if (o == DONE) break; SIM_CHECK(o == FAILED, "valid-use-refused", "StatsRW refused"); nt = true; SIM_CHECK(libBlocks() == b, "memory-leaked", "a constructor that failed keeps %zu blocks", libBlocks() - b); } }
    else { for (int i = 0; i < 3; ++i) { Lib l; if (how == 1) s[i] = choose(S_CFG, 1, 4) == 3 ? NULL : new Stats; else s[i] = new StatsSeriesGroup("k", 1e9); } Lib l; rw = new StatsRW(s[0], s[1], s[2]); }
    vector<double> r, w, a; bool own = false;
    for (int i = 0, ops = range(S_CFG, 2, 1, 24); i < ops; ++i) { unsigned m = chooseW(S_WORK, 0, {3, 3, 1}); double v = choose(S_WORK, 1, 40); ev("op", m, (long)v); maybeArm(1, how == 2 ? 0.5 : 0, 4); string msg; Outcome o = attempt([&] { rw->add(v, m == 0 ? StatsRW::Read : m == 1 ? StatsRW::Write : StatsRW::All, i); }, &msg); SIM_CHECK(o != FATAL, "valid-use-refused", "adding %g: %s", v, msg.c_str()); if (o == FAILED) { nt = true; probe("failed-add"); // part of it may have been done, none of it twice
            if (m == 2) { { Lib l; rw->add(v, StatsRW::All, i); } if (!own) a.clear(); own = true; a.push_back(v); } else if (m < 2) { if (s[m]->count() == (m ? w : r).size() + 1) { (m ? w : r).push_back(v); SIM_CHECK(!own, "spurious-failure", "adding failed after it was done"); } SIM_CHECK(s[2]->count() == a.size(), "half-added", "a failed add counted in all"); } continue; }
        if (m == 0) r.push_back(v); if (m == 1) w.push_back(v); if (m == 2) { if (!own) a.clear(); own = true; a.push_back(v); } else if (!own) a.push_back(v);
        if (how) { Unlib u; if (s[0]) totals(*s[0], r, "for reads"); if (s[1]) totals(*s[1], w, "for writes"); if (s[2]) totals(*s[2], a, "for all"); } stateHash(m * 8 + how); }
    { Unlib u; std::ostringstream out; rw->printRome(2, out); if (how != 2) rw->printTabular(2, out); } if (r.size() + w.size() > 5) nt = true; if (how == 0) { Unlib u; std::ostringstream out; rw->printRome(0, out); string t = out.str(); char b[40]; snprintf(b, sizeof b, "{ count %zu }", r.size()); if (!r.empty()) SIM_CHECK(t.find(b) != string::npos, "print-wrong", "the reads' count %zu is not printed", r.size()); }
    { Lib l; delete rw; } SIM_CHECK(libBlocks() == base, "memory-leaked", "%ld blocks remain after the StatsRW is gone", (long)(libBlocks() - base)); if (nt) nontrivial();
}
}

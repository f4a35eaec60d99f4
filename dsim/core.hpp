// dsim core: seeded choices, run isolation, recording, replay, shrinking.
#ifndef DSIM_CORE_HPP
#define DSIM_CORE_HPP
#include <stdint.h>
#include <stddef.h>
#include <initializer_list>

namespace dsim {
enum Stream { S_CFG = 1, S_WORK, S_SCHED, S_FAULT, S_TIME, S_DATA, S_WAKE, S_ALLOC, S_TSO, S_IO, S_CLK };
const char *streamName(unsigned s);

// ---- choices.  Value 0 is always the "nothing unusual" choice.
uint64_t choose(Stream s, unsigned sub, uint64_t n);                    // uniform in [0,n)
uint64_t chooseAt(Stream s, unsigned sub, uint32_t pos, uint64_t n);
uint64_t chooseW(Stream s, unsigned sub, std::initializer_list<unsigned> weights);
bool chance(Stream s, unsigned sub, double p);
bool chanceAt(Stream s, unsigned sub, uint32_t pos, double p);
uint64_t rawAt(Stream s, unsigned sub, uint32_t pos);                   // unrecorded hash value (gen mode only)
// uniform in [lo,hi]; lo is the simplest value
inline int64_t range(Stream s, unsigned sub, int64_t lo, int64_t hi) { return lo + (int64_t)choose(s, sub, (uint64_t)(hi - lo + 1)); }
bool generating();           // true: drawing from the PRNG; false: replaying a recorded list
// record a value decided by the caller (generation mode), or fetch the recorded one (replay)
uint64_t decideAt(Stream s, unsigned sub, uint32_t pos, uint64_t generated);

bool faultsEnabled();        // fault-injecting configuration?
bool tierThorough();

// ---- events (order-sensitive trace hash; never contains addresses or real time)
void ev(const char *tag, int64_t a = 0, int64_t b = 0, int64_t c = 0);
void evs(const char *tag, const char *s, size_t n);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // trace text only (not hashed)
bool tracing();
void schedHash(uint64_t v);  // mix into the interleaving signature
void stateHash(uint64_t v);  // mix into the "distinct state/history" signature

// ---- counters
void fault(const char *kind, uint64_t n = 1);   // a fault really fired
void probe(const char *name, uint64_t n = 1);   // a rare condition was reached
void simTime(uint64_t ns);                      // simulated time covered by this run
void steps(uint64_t n);
void nontrivial();                              // this run satisfies the harness' non-triviality rule

// ---- verdicts
void violate(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void simError(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void discard(const char *why) __attribute__((noreturn));
void finish() __attribute__((noreturn));        // run is OK: end the process now
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) dsim::violate(cls, __VA_ARGS__); } while (0)

// How an abnormal end of the child must be read (set by the harness during the run).
// NULL: any abort/crash is a violation.  Otherwise the text of the violation class.
void expectAbort(bool ok);   // abort() now counts as a normal, correct end of the run
bool inRun();

const char *capturedOutput();  // reads what fd 1/2 have received so far in this run
int outputFd();

struct Scenario { const char *prop; const char *name; void (*fn)(); unsigned weight; int faultMode; /*0 both 1 only-free 2 only-fault*/ };
void addScenario(const Scenario &s);
struct Reg { Reg(const char *p, const char *n, void (*f)(), unsigned w = 1, int fm = 0) { Scenario s = {p, n, f, w, fm}; addScenario(s); } };
#define SIM_SCENARIO(prop, name, ...) static void scen_##name(); static dsim::Reg reg_##name(prop, #name, scen_##name, ##__VA_ARGS__); static void scen_##name()
// called in the child just before / after the scenario function
extern void (*on_run_begin)();
extern void (*on_run_end)();
extern void (*on_process_end)();
const char *scenarioName();
inline uint64_t mix64(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
}
#endif

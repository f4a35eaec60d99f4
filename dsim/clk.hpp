// dsim clock world: a true time, a cycle counter and a system clock, all moved by the seed.
#ifndef DSIM_CLK_HPP
#define DSIM_CLK_HPP
#include "core.hpp"
#include <string>
#include <vector>
namespace dsim {
typedef __int128 ps_t; // picoseconds
struct Op { int kind; uint64_t v; };   // 0 cycle counter (value), 1 system clock (microseconds)
struct ClkWorld {
    ps_t t, epoch;                     // true time since start; system time at start
    uint64_t khz, c0;                  // true rate of the counter, its value at start
    int64_t ccCost, todCost, jitter;   // ps
    uint64_t jseed, ops, polls;
    std::vector<int64_t> cpuOff; unsigned cpu; // counter offsets of the processors
    double pDesched, pTodSlow, pMigrate, pJump, pStep, pNoise; uint64_t noiseFrom; ps_t deschedMax, noiseMax; int64_t jumpMax; ps_t stepMax; bool stepBack, jumpReset; int deschedLeft, jumpLeft, stepLeft;
    unsigned nDesched, nJump, nStep; ps_t tDesched, backSteps; // injected so far
    std::vector<Op> log; bool logging; uint64_t opLimit, tods;
    void (*point)();                   // also a schedule point of the thread simulator
    ClkWorld();
    uint64_t counter() const;          // value at this moment
    ps_t sys() const { return epoch + t; }
    uint64_t lowest() const; uint64_t readCounter(); uint64_t readSys();   // microseconds
    void pass(ps_t d) { t += d; }
    void sleep(ps_t d);
    void maybeDesched();
};
extern ClkWorld *clk_world;
// processors as listed under /sys/devices/system/cpu
struct CpuDir { bool exists; std::vector<std::string> names; unsigned opens, closes; };
extern CpuDir *cpu_dir;
}
#endif

// dsim thread simulator: real pthreads, one running at a time, every switch decided by the seed.
#ifndef DSIM_THR_HPP
#define DSIM_THR_HPP
#include "core.hpp"
#include <functional>
#include <pthread.h>
#include <time.h>
namespace dsim {
void thrBegin();                 // start simulating (calling thread becomes thread 0)
void thrEnd();
bool simActive();
int tid();                       // simulated thread id, -1 if none
int threadCount();               // threads ever created
int liveThreads();
int64_t now();                   // simulated monotonic ns
int64_t realtimeNow();           // simulated CLOCK_REALTIME ns
void setRealtime(int64_t ns);    // step the wall clock
uint64_t stepCount();
void point(int kind);            // explicit schedule point (1 = sync)
void sleepNs(int64_t ns);        // simulated sleep
uint64_t eventSeq();             // global, monotonically increasing sequence number
void setBudget(uint64_t steps);
struct NoPreempt { bool o; NoPreempt(); ~NoPreempt(); };  // atomic section for oracles
extern int (*on_thread_create)();        // returns errno to inject for pthread_create (0 = none)
extern void (*on_point)(int kind);       // invariant hook at every schedule point (runs un-preempted)
extern bool spurious_ok;                 // inject spurious wake-ups
extern bool time_faults;                 // let time jump to the next deadline at sync points
extern double time_jump_p;
extern uint64_t step_ns;
struct ThreadInfo { bool live, started_body, blocked; int waitKind; unsigned char mask[128]; };
int shadowMask(int tid, void *sigset);   // copy simulated thread's real mask as last seen
bool threadBlocked(int tid);
int blockedKind(int tid);
int currentTid();
// threads for harness use
int spawn(const std::function<void()> &fn);
void joinAll();
void joinT(int h);
bool tsanPoints();
void setTsanPoints(bool on);
void yieldForced();
uint64_t mutexReleases(int t);   // mutexes given up by thread t so far
uint64_t lockEpoch();            // changes whenever any mutex changes hands
int ownerWithin(const void *lo, size_t n);
uint64_t mutexBlocks(int t);
uint64_t mutexBusy(int t);
int mutexOwner(const void *m);   // simulated owner of a pthread mutex, -1 if free
}
#endif

// Process simulation: real perl processes (an embedded interpreter, forked) whose every system call that
// depends on time, other processes, locks or the file system is a request to a simulator process.
#ifndef DSIM_PL_HPP
#define DSIM_PL_HPP
#include <stdint.h>
#include <string>
#include <vector>
#include <functional>
namespace dsim {
struct PlCfg {
    double switchP = 0.3;      // probability of running another process than the last one
    double killP = 0;          // per step: SIGKILL for a process marked killable
    double forkFailP = 0;      // fork -> EAGAIN
    double flockErrP = 0;      // flock -> ENOLCK/EIO
    double fileErrP = 0;       // open for writing/rename/unlink -> EIO/ENOSPC
    double readErrP = 0;       // open for reading -> EIO
    double toolWrongP = 0;     // gzip/bzip2 silently writes something else
    double writeErrP = 0;      // write to a file fails (disk full) or is short
    bool toolFailLast = false; // ... only the last one of a pipeline, whose status the shell reports
    double execErrP = 0;      // a program cannot be started
    double toolFailP = 0;      // a tool of the stand-in shell writes a part of its output and fails
    double stallP = 0;         // per step: time passes although processes could run
    double sigP = 0;           // per step: a harmless handled signal for a process that has a USR1 handler
    bool killBorn = false;     // every forked process is killable from the start
    bool pidReuse = false;     // a reaped pid is given to the next process at once
    uint64_t stepNs = 20000;   // time one request takes
    unsigned maxSteps = 30000;
    const char *maxStepsClass = "no-progress";
};
struct PlProc { int vpid, ppid; bool alive, zombie, reaped, killable, injectedKill; int status; int role; };
// note: a message from a simulated process (SIM::note); exit: a process has ended
struct PlHooks { std::function<void(int vpid, const std::string &)> note; std::function<void(int vpid, int status)> exit;
                 std::function<std::string(int vpid, const std::string &)> call; };  // call: a server inside the simulator answers (SIM::call)
// runs perl sub main::<fn> in a fresh process and simulates until every process is gone
void plRun(const char *fn, const PlCfg &cfg, const PlHooks &hooks);
bool plFaultsOn();                      // faults may be injected now (enabled and no fault bar)
uint64_t plNow();                       // ns
const PlProc *plProc(int vpid);         // latest process with that pid
std::vector<PlProc> plAll();
bool plFileLocked(const char *path);    // does anybody hold the kernel lock on this file?
void plKillAll();
extern const char *pl_script;
}
#endif

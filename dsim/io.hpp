// dsim simulated operating system: files and system calls decided by the seed.
#ifndef DSIM_IO_HPP
#define DSIM_IO_HPP
#include "core.hpp"
#include <functional>
#include <string>
#include <vector>
#include <stdio.h>
#include <sys/types.h>
namespace dsim {
// A harness derives from this to take over system calls made by the code under test.
struct SimOS {
    virtual ~SimOS() { }
    virtual bool path(const char *) { return false; }      // is this path simulated?
    virtual bool fd(int) { return false; }                 // is this descriptor simulated?
    virtual bool procs() { return false; }                 // fork/waitpid/kill/pipe simulated?
    virtual int open(const char *, int) { return -1; }
    virtual int close(int) { return -1; }
    virtual ssize_t read(int, void *, size_t) { return -1; }
    virtual ssize_t write(int, const void *, size_t) { return -1; }
    virtual off_t lseek(int, off_t, int) { return -1; }
    virtual int dup2(int, int) { return -1; }
    virtual int pipe(int *) { return -1; }
    virtual pid_t fork() { return -1; }
    virtual pid_t waitpid(pid_t, int *, int) { return -1; }
    virtual int kill(pid_t, int) { return -1; }
    virtual FILE *fopen(const char *, const char *, bool /*lfs*/) { return NULL; }
    virtual int fclose(FILE *) { return -1; }
    virtual bool file(FILE *) { return false; }
};
extern SimOS *sim_os;
struct RealIo { RealIo(); ~RealIo(); };                    // inside: calls are not simulated

// read-only report files (such as those of /proc) with injected failures
struct ReportFile {
    std::string path;
    std::function<std::string()> content;  // taken when the file is opened or rewound
    unsigned opens, closes, opened_ok, rewinds;
    int open_errno;                         // non-zero: opening fails
    long fail_at; int fail_errno;           // reading at this offset fails (-1: never)
    bool fail_once;                         // the failure goes away after it fired
    unsigned max_chunk;                     // 0: as much as asked
    double p_eintr;
    unsigned fired;                         // read failures that fired since last cleared
    int setvbuf_err, seek_errno, close_errno;
    ReportFile() : opens(0), closes(0), opened_ok(0), rewinds(0), open_errno(0), fail_at(-1), fail_errno(5), fail_once(false), max_chunk(0), p_eintr(0), fired(0), setvbuf_err(0), seek_errno(0), close_errno(0) { }
    unsigned openNow() const { return opened_ok - closes; }
};
ReportFile &reportFile(const char *path);   // creates / finds; installs the simulator
}
#endif

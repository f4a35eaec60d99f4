#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "io.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <map>
namespace dsim {
SimOS *sim_os = NULL;
static __thread int t_real = 0;
RealIo::RealIo() { ++t_real; }
RealIo::~RealIo() { --t_real; }
extern void (*io_point)();
void (*io_point)() = NULL;      // set by harnesses that also simulate threads: system calls are schedule points
static inline bool on() { return sim_os != NULL && t_real == 0 && inRun(); }
extern bool *lib_scope __attribute__((weak));   // the simulator's own allocations are not those of the code under test
struct In { bool was; In() : was(false) { if (io_point) io_point(); ++t_real; if (&lib_scope) { was = *lib_scope; *lib_scope = false; } } ~In() { --t_real; if (&lib_scope) *lib_scope = was; } };
#define REAL(name) ({ static decltype(&::name) f_; if (!f_) f_ = (decltype(&::name))dlsym(RTLD_NEXT, #name); f_; })

struct Cookie { ReportFile *f; std::string data; size_t pos; int fd; FILE *fp; };
static ssize_t serve(Cookie *c, char *buf, size_t n) {
    ReportFile &f = *c->f;
    if (f.p_eintr > 0 && chance(S_IO, 3, f.p_eintr)) { fault("read-EINTR"); errno = EINTR; return -1; }
    size_t lim = c->data.size();
    if (f.fail_at >= 0 && (long)c->pos >= f.fail_at) { ++f.fired; fault("read-error"); ev("read-error", c->pos); if (f.fail_once) f.fail_at = -1; errno = f.fail_errno; return -1; }
    if (f.fail_at >= 0 && (size_t)f.fail_at < lim) lim = f.fail_at;
    size_t k = lim > c->pos ? lim - c->pos : 0; if (k > n) k = n;
    if (f.max_chunk && k > f.max_chunk) { k = 1 + choose(S_IO, 2, f.max_chunk); fault("short-read"); }
    memcpy(buf, c->data.data() + c->pos, k); c->pos += k; ev("sys-read", c->pos, k);
    return k;
}
struct ReportOS : SimOS {
    std::vector<ReportFile *> files; std::vector<Cookie *> open_;
    ReportFile *find(const char *p) { for (size_t i = 0; i < files.size(); ++i) if (files[i]->path == p) return files[i]; return NULL; }
    Cookie *byFd(int fd) { for (size_t i = 0; i < open_.size(); ++i) if (open_[i]->fd == fd) return open_[i]; return NULL; }
    Cookie *byFp(FILE *fp) { for (size_t i = 0; i < open_.size(); ++i) if (open_[i]->fp == fp) return open_[i]; return NULL; }
    bool path(const char *p) { return find(p) != NULL; }
    bool fd(int d) { return d >= 0 && byFd(d) != NULL; }
    bool file(FILE *f) { return byFp(f) != NULL; }
    Cookie *mk(const char *p) {
        ReportFile *f = find(p); ++f->opens; ev("sys-open", f->opens);
        if (f->open_errno) { fault("open-error"); errno = f->open_errno; return NULL; }
        ++f->opened_ok; Cookie *c = new Cookie; c->f = f; c->data = f->content(); c->pos = 0; c->fd = -1; c->fp = NULL; open_.push_back(c); return c;
    }
    void drop(Cookie *c) { ++c->f->closes; for (size_t i = 0; i < open_.size(); ++i) if (open_[i] == c) open_.erase(open_.begin() + i); }
    int open(const char *p, int) { Cookie *c = mk(p); if (!c) return -1; c->fd = memfd_create("sim", MFD_CLOEXEC); return c->fd; }
    ssize_t read(int d, void *b, size_t n) { return serve(byFd(d), (char *)b, n); }
    off_t lseek(int d, off_t o, int w) { Cookie *c = byFd(d); if (c->f->seek_errno) { fault("seek-error"); errno = c->f->seek_errno; return -1; } if (w == SEEK_CUR) o += c->pos; else if (w == SEEK_END) o += c->data.size(); if (o < 0) { errno = EINVAL; return -1; } if (o == 0 && w == SEEK_SET) { ++c->f->rewinds; c->data = c->f->content(); } c->pos = o; return o; }
    int close(int d) { Cookie *c = byFd(d); syscall(SYS_close, d); int e = c->f->close_errno; drop(c); delete c; if (e) { fault("close-error"); errno = e; return -1; } return 0; }
    static ssize_t ckRead(void *k, char *b, size_t n) { ++t_real; ssize_t r = serve((Cookie *)k, b, n); --t_real; return r; }
    static int ckSeek(void *k, off64_t *o, int w) {
        Cookie *c = (Cookie *)k; if (c->f->seek_errno) { fault("seek-error"); errno = c->f->seek_errno; return -1; }
        off64_t p = *o; if (w == SEEK_CUR) p += c->pos; else if (w == SEEK_END) p += c->data.size(); if (p < 0) { errno = EINVAL; return -1; }
        if (p == 0) { ++c->f->rewinds; c->data = c->f->content(); ev("sys-rewind"); } c->pos = p; *o = p; return 0; }
    static int ckClose(void *k) { Cookie *c = (Cookie *)k; int e = c->f->close_errno; static_cast<ReportOS *>(sim_os)->drop(c); delete c; if (e) { fault("close-error"); errno = e; return -1; } return 0; }
    FILE *fopen(const char *p, const char *m, bool lfs) {
        Cookie *c = mk(p); if (!c) return NULL;
        if (lfs) { // libstdc++ file buffers use the descriptor directly
            c->fd = memfd_create("sim", MFD_CLOEXEC); c->fp = fdopen(c->fd, "r"); return c->fp; }
        cookie_io_functions_t io = {ckRead, NULL, ckSeek, ckClose};
        return fopencookie(c, m, io);
    }
    int fclose(FILE *f) { Cookie *c = byFp(f); if (!c) return REAL(fclose)(f); int e = c->f->close_errno; REAL(fclose)(f); drop(c); delete c; if (e) { fault("close-error"); errno = e; return EOF; } return 0; }
};
static ReportOS *g_rep;
ReportFile &reportFile(const char *p) {
    if (!g_rep) { g_rep = new ReportOS; sim_os = g_rep; }
    ReportFile *f = g_rep->find(p); if (!f) { f = new ReportFile; f->path = p; g_rep->files.push_back(f); } return *f;
}
}
using namespace dsim;
extern "C" {
static int openMode(int fl, va_list ap) { return (fl & O_CREAT) || (fl & O_TMPFILE) == O_TMPFILE ? va_arg(ap, int) : 0; }
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = openMode(fl, ap); va_end(ap); if (on() && sim_os->path(p)) { In i; return sim_os->open(p, fl); } return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = openMode(fl, ap); va_end(ap); if (on() && sim_os->path(p)) { In i; return sim_os->open(p, fl); } return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = openMode(fl, ap); va_end(ap); if (on() && sim_os->path(p)) { In i; return sim_os->open(p, fl); } return (int)syscall(SYS_openat, d, p, fl, m); }
int close(int fd) { if (on() && sim_os->fd(fd)) { In i; return sim_os->close(fd); } return (int)syscall(SYS_close, fd); }
ssize_t read(int fd, void *b, size_t n) { if (on() && sim_os->fd(fd)) { In i; return sim_os->read(fd, b, n); } return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (on() && sim_os->fd(fd)) { In i; return sim_os->write(fd, b, n); } return syscall(SYS_write, fd, b, n); }
off_t lseek(int fd, off_t o, int w) __THROW;
off_t lseek(int fd, off_t o, int w) __THROW { if (on() && sim_os->fd(fd)) { In i; return sim_os->lseek(fd, o, w); } return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) __THROW;
off64_t lseek64(int fd, off64_t o, int w) __THROW { if (on() && sim_os->fd(fd)) { In i; return sim_os->lseek(fd, o, w); } return syscall(SYS_lseek, fd, o, w); }
int dup2(int a, int b) __THROW;
int dup2(int a, int b) __THROW { if (on() && sim_os->procs()) { In i; return sim_os->dup2(a, b); } return (int)syscall(SYS_dup2, a, b); }
int pipe(int *p) __THROW;
int pipe(int *p) __THROW { if (on() && sim_os->procs()) { In i; return sim_os->pipe(p); } return (int)syscall(SYS_pipe2, p, 0); }
pid_t fork(void) __THROW;
pid_t fork(void) __THROW { if (on() && sim_os->procs()) { In i; return sim_os->fork(); } return REAL(fork)(); }
pid_t waitpid(pid_t p, int *s, int o) { if (on() && sim_os->procs()) { In i; return sim_os->waitpid(p, s, o); } return (pid_t)syscall(SYS_wait4, p, s, o, NULL); }
int kill(pid_t p, int s) __THROW;
int kill(pid_t p, int s) __THROW { if (on() && sim_os->procs()) { In i; return sim_os->kill(p, s); } return (int)syscall(SYS_kill, p, s); }
static bool fromStreams(void *ra) { Dl_info d; return dladdr(ra, &d) && d.dli_fname && strstr(d.dli_fname, "libstdc++"); }
FILE *fopen(const char *p, const char *m) { if (on() && sim_os->path(p)) { In i; return sim_os->fopen(p, m, fromStreams(__builtin_return_address(0))); } return REAL(fopen)(p, m); }
FILE *fopen64(const char *p, const char *m) { if (on() && sim_os->path(p)) { In i; return sim_os->fopen(p, m, fromStreams(__builtin_return_address(0))); } return REAL(fopen64)(p, m); }
int fclose(FILE *f) { if (on() && sim_os->file(f)) { In i; return sim_os->fclose(f); } return REAL(fclose)(f); }
}

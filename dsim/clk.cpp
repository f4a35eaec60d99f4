#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "clk.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
#include <sys/select.h>
namespace dsim {
ClkWorld *clk_world; CpuDir *cpu_dir;
extern bool (*time_hook)(int clk, int64_t *ns); extern bool (*sleep_hook)(int64_t ns);
static bool th(int c, int64_t *ns) { (void)c; if (!clk_world || !inRun()) return false; *ns = (int64_t)clk_world->readSys() * 1000; return true; }
static bool sh(int64_t ns) { if (!clk_world || !inRun()) return false; clk_world->sleep((ps_t)ns * 1000); return true; }
ClkWorld::ClkWorld() : t(0), epoch((ps_t)1600000000 * 1000000000000ll), khz(3000000), c0(1ull << 40), ccCost(20000), todCost(40000), jitter(0), jseed(0), ops(0), polls(0), cpuOff(1, 0), cpu(0), pDesched(0), pTodSlow(0), pMigrate(0), pJump(0), pStep(0), pNoise(0), noiseFrom(0), deschedMax(0), noiseMax(0), jumpMax(0), stepMax(0), stepBack(false), jumpReset(false), deschedLeft(1 << 30), jumpLeft(1 << 30), stepLeft(1 << 30), nDesched(0), nJump(0), nStep(0), tDesched(0), backSteps(0), logging(false), opLimit(20000000), tods(0), point(NULL) { time_hook = th; sleep_hook = sh; }
uint64_t ClkWorld::counter() const { return c0 + cpuOff[cpu] + (uint64_t)((unsigned __int128)t * khz / 1000000000ull); }
uint64_t ClkWorld::lowest() const { int64_t m = cpuOff[0]; for (int64_t o : cpuOff) m = o < m ? o : m; return counter() - cpuOff[cpu] + m; }
void ClkWorld::maybeDesched() {
    if (pDesched > 0 && deschedLeft > 0 && chance(S_FAULT, 10, pDesched)) { --deschedLeft; ps_t d = 1 + (ps_t)choose(S_FAULT, 11, 1000000) * deschedMax / 1000000; if (choose(S_FAULT, 11, 2)) d = d / 1000 + 1; t += d; tDesched += d; ++nDesched; fault("descheduled"); ev("descheduled", (int64_t)(d / 1000)); }
    if (pMigrate > 0 && cpuOff.size() > 1 && jumpLeft > 0 && chance(S_FAULT, 12, pMigrate)) { --jumpLeft; unsigned k = choose(S_FAULT, 13, cpuOff.size() - 1); cpu = k >= cpu ? k + 1 : k; ++nJump; fault("other-processor"); ev("other-processor", cpu); }
    if (pJump > 0 && jumpLeft > 0 && chance(S_FAULT, 14, pJump)) { --jumpLeft; ++nJump; if (jumpReset && choose(S_FAULT, 15, 2)) { c0 -= lowest() - choose(S_FAULT, 15, 3000000); fault("counter-reset"); ev("counter-reset"); } else { int64_t d = (int64_t)(choose(S_FAULT, 15, 2000001) * (double)jumpMax / 1000000 - jumpMax); if (choose(S_FAULT, 15, 2)) d /= 1000; if (d < 0 && lowest() < (uint64_t)-d) d = -d; c0 += d; fault(d < 0 ? "counter-back" : "counter-forward"); ev("counter-jump", d); } }
    if (pStep > 0 && stepLeft > 0 && chance(S_FAULT, 16, pStep)) { --stepLeft; ++nStep; ps_t d = (ps_t)choose(S_FAULT, 17, 1000001) * stepMax / 1000000; if (choose(S_FAULT, 17, 2)) d /= 1000; if (stepBack && choose(S_FAULT, 17, 2)) { epoch -= d; backSteps += d; fault("system-clock-back"); ev("system-clock-back", (int64_t)(d / 1000)); } else { epoch += d; fault("system-clock-forward"); ev("system-clock-forward", (int64_t)(d / 1000)); } }
}
static int64_t jit(ClkWorld &w, int64_t base) { return w.jitter ? base + (int64_t)((mix64(w.jseed ^ w.ops * 0x9e3779b97f4a7c15ull) >> 20) % (uint64_t)(w.jitter + 1)) : base; }
uint64_t ClkWorld::readCounter() {
    if (point) point();
    if (++ops > opLimit) violate("never-ends", "still reading the clocks after %llu reads, %.3f s", (unsigned long long)ops, (double)t * 1e-12);
    maybeDesched(); ++polls; int64_t c = jit(*this, ccCost); if (polls > 3000) c = c * 8 > 1500000000ll / (int64_t)(khz / 1000) * 1000 ? (c > 1500000 ? c : 1500000) : c * 8; // a long spin: reads get slower
    t += c / 2; uint64_t v = counter(); t += c - c / 2; if (logging) log.push_back(Op{0, v}); return v;
}
uint64_t ClkWorld::readSys() {
    if (point) point();
    if (++ops > opLimit) violate("never-ends", "still reading the clocks after %llu reads, %.3f s", (unsigned long long)ops, (double)t * 1e-12);
    polls = 0; maybeDesched(); int64_t c = jit(*this, todCost); ps_t pre = c / 2, post = c - c / 2;
    if (pNoise > 0 && ops >= noiseFrom) { uint64_t r = mix64(jseed ^ 0x51ull ^ ops * 0xd6e8feb86659fd93ull); if ((r & 0xffff) < pNoise * 65536) { fault("slow-read"); ps_t x = noiseMax * (ps_t)((r >> 16) & 0xffff) / 65536; if ((r >> 40) & 1) pre += x; else post += x; } }
    if (pTodSlow > 0 && chance(S_FAULT, 18, pTodSlow)) { ps_t x = (ps_t)choose(S_FAULT, 19, 1000000) * deschedMax / 1000000; tDesched += x; ++nDesched; fault("slow-system-call"); if (choose(S_FAULT, 19, 2)) pre += x; else post += x; }
    t += pre; ++tods; uint64_t v = (uint64_t)((epoch + t) / 1000000); t += post; if (logging) log.push_back(Op{1, v}); maybeDesched(); return v;
}
void ClkWorld::sleep(ps_t d) { if (point) point(); t += d; ev("sleep", (int64_t)(d / 1000000)); }
}
using namespace dsim;
extern "C" {
uint64_t dsim_rdtsc() { if (!clk_world || !inRun()) return __builtin_ia32_rdtsc(); return clk_world->readCounter(); }
// called in place of the instruction: only eax and edx may change
__asm__(".text\n.globl dsim_rdtsc_thunk\n.type dsim_rdtsc_thunk,@function\ndsim_rdtsc_thunk:\n"
"pushfq\n pushq %rbp\n movq %rsp,%rbp\n pushq %rcx\n pushq %rsi\n pushq %rdi\n pushq %r8\n pushq %r9\n pushq %r10\n pushq %r11\n"
"subq $528,%rsp\n andq $-16,%rsp\n fxsave64 (%rsp)\n cld\n call dsim_rdtsc\n fxrstor64 (%rsp)\n"
"leaq -56(%rbp),%rsp\n popq %r11\n popq %r10\n popq %r9\n popq %r8\n popq %rdi\n popq %rsi\n popq %rcx\n popq %rbp\n popfq\n"
"movq %rax,%rdx\n shrq $32,%rdx\n movl %eax,%eax\n ret\n.size dsim_rdtsc_thunk,.-dsim_rdtsc_thunk\n");
struct FakeDir { size_t pos; struct dirent e; };
static FakeDir *fake[8];
static bool isFake(DIR *d) { for (auto f : fake) if (f && (DIR *)f == d) return true; return false; }
#define REAL(name) ({ static decltype(&::name) f_; if (!f_) f_ = (decltype(&::name))dlsym(RTLD_NEXT, #name); f_; })
DIR *opendir(const char *p) {
    if (!cpu_dir || !inRun() || strncmp(p, "/sys/devices/system/cpu", 23) || (p[23] && strcmp(p + 23, "/"))) return REAL(opendir)(p);
    if (!cpu_dir->exists) { errno = ENOENT; fault("no-cpu-directory"); return NULL; }
    for (auto &f : fake) if (!f) { f = new FakeDir; f->pos = 0; ++cpu_dir->opens; return (DIR *)f; } errno = EMFILE; return NULL;
}
struct dirent *readdir(DIR *d) { if (!isFake(d)) return REAL(readdir)(d); FakeDir *f = (FakeDir *)d; if (f->pos >= cpu_dir->names.size()) return NULL; memset(&f->e, 0, sizeof f->e); strncpy(f->e.d_name, cpu_dir->names[f->pos++].c_str(), 200); f->e.d_type = DT_DIR; return &f->e; }
int closedir(DIR *d) { if (!isFake(d)) return REAL(closedir)(d); ++cpu_dir->closes; for (auto &f : fake) if ((DIR *)f == d) { delete f; f = NULL; } return 0; }
}

import os
import build as B
QUICK_S = 16
THOROUGH_S = 420
THR_REAL = ["Lintel library code", "libstdc++ and boost", "pthread objects (state words), real OS threads"]
THR_STUB = ["thread scheduling, blocking and wake-up order", "clocks, sleeping", "pthread_cond internals"]
THR_ASSUME = ["sequentially consistent memory between schedule points (store buffers are simulated in A01-A03)",
              "glibc mutexes, thread creation and TLS behave as documented", "library compiled with gcc -O1 thread-sanitizer instrumentation behaves as the shipped build"]
THR_RULE = "one run = one seed = one generated workload and schedule; even runs fault-free, odd runs fault-injecting; non-trivial: at least two threads ran and at least one preemption or blocking hand-over happened inside the library operations"
CORE = ["src/AssertBoost.cpp", "src/AssertException.cpp"]
def thr(prop, libs, harness=None, sims=(), **kw):
    libs = CORE + libs
    def prep(p):
        exe = B.build(prop, [harness or prop.lower() + ".cpp"], ["core.cpp", "thr.cpp"] + list(sims), libs, "tsan")
        return [exe], {}
    d = dict(prepare=prep, rule=THR_RULE, real=THR_REAL, stub=THR_STUB, assume=THR_ASSUME); d.update(kw); return d
PT = ["src/PThread.cpp", "src/SimpleMutex.cpp", "src/StringUtil.cpp", "src/ClockPThread.cpp", "src/Clock.cpp", "src/Stats.cpp", "src/LintelLog.cpp", "src/Double.cpp", "src/HashFns.cpp", "src/HashTable.cpp", "src/MersenneTwisterRandom.cpp"]
ALLOC_REAL = ["Lintel library code", "libstdc++ and boost", "heap (AddressSanitizer allocator)"]
ALLOC_STUB = ["success or failure of every allocation, element copy and user callback", "system calls and streams where the property reads one"]
ALLOC_RULE = "one run = one seed = one generated history of operations with generated failures (even runs without failures); non-trivial: the container grew or wrapped, or an operation failed part-way"
ALLOC_ASSUME = ["library compiled with gcc -O1 address-sanitizer instrumentation behaves as the shipped build", "failures are exceptions thrown by operator new, element copies and callbacks"]
def asanp(prop, harness, libs=(), sims=(), linkextra=(), **kw):
    def prep(p):
        exe = B.build(prop, harness, ["core.cpp", "alloc.cpp"] + list(sims), CORE + list(libs), "asan", linkextra=linkextra)
        return [exe], {}
    d = dict(prepare=prep, rule=ALLOC_RULE, real=ALLOC_REAL, stub=ALLOC_STUB, assume=ALLOC_ASSUME); d.update(kw); return d
def clockp(prop, **kw):
    def prep(p):
        inc = ["-include", os.path.join(B.V, "dsim/rdtsc.h")]
        return [B.build(prop, [prop.lower() + ".cpp"], ["core.cpp", "thr.cpp", "io.cpp", "clk.cpp"], CORE + PT, "clock", extra=inc, libextra=inc)], {}
    d = dict(prepare=prep, real=["Lintel library code (Clock, PThread, logging)", "libstdc++ and boost"], stub=["the cycle counter instruction (assembled as a call)", "gettimeofday, clock_gettime, time, select, sleeping", "files and directories under /sys/devices/system/cpu", "thread scheduling (K03)"],
        rule="one run = one seed = one generated machine (counter rate, costs, noise, policies) and history of readings; even runs undisturbed, odd runs with descheduling, slow calls, counter and clock faults; non-trivial: the harness reached extrapolated and recalibrated readings, disturbances, or a calibration", assume=["the clocks are read only through the cycle counter instruction and the C library's calls", "time passes only at those reads and between operations: code in between is instantaneous"]); d.update(kw); return d
def tsop(prop, libs=(), **kw):
    def prep(p):
        h = prop.lower() + ".cpp"
        return [B.build(prop, [h, h + " -O1 -DA_VAR=1", h + " -O3 -DA_VAR=3"], ["core.cpp", "thr.cpp", "tso.cpp"], list(libs), "tso")], {}
    d = dict(prepare=prep, real=["Lintel header code, compiled with gcc -O1, -O2 and -O3: the machine instructions are the real ones", "libstdc++", "pthread objects (state words), real OS threads"], stub=["thread scheduling", "when a store becomes visible to other threads (per-thread store buffers)", "an update without lock prefix is performed as a load and a later store"],
        rule="one run = one seed = one generated program, instruction-level schedule and store delays; even runs with stores visible at once, odd runs with delayed stores (buffer capacity 1-12); non-trivial: operations of different threads overlapped", assume=["the machine is x86-TSO: stores delayed in order, locked instructions and mfence drain", "the compiled code of this header is what a user's compiler would produce (three optimisation levels)"]); d.update(kw); return d
def plp(prop, **kw):
    def prep(p): return [B.build(prop, [prop.lower() + ".cpp"], ["core.cpp", "pl.cpp", "plperl.cpp"], [], "plain")], {}
    d = dict(prepare=prep, real=["the Perl code from the working tree, run by the installed perl interpreter (libperl)", "real processes, file descriptors, kernel file locks, files, exit statuses and signal delivery"], stub=["process scheduling", "clocks, sleeping, select", "process ids", "when kill, fork, wait, flock, rename, unlink and open happen and whether they fail", "the commands being run (a scripted stand-in)"],
        rule="one run = one seed = one generated set of processes, workload and schedule; even runs without faults, odd runs with kills, failing and interrupted system calls and stalls; non-trivial: the harness saw processes contend or end in an order the workload did not fix", assume=["processes interact only through the intercepted calls", "between two calls a process is not interrupted"]); d.update(kw); return d
PROPS = {
 "F01": plp("F01"), "F02": plp("F02"), "M01": plp("M01"), "J01": plp("J01"), "J02": plp("J02"), "J03": plp("J03"), "R01": plp("R01"), "R02": plp("R02"), "R03": plp("R03"),
 "A01": tsop("A01"), "A02": tsop("A02"), "A03": tsop("A03"),
 "K01": clockp("K01"), "K02": clockp("K02"), "K03": clockp("K03"),
 "H02": asanp("H02", ["h02.cpp", "h02_dbg.cpp", "h02_copy.cpp"], ["src/HashFns.cpp", "src/HashTable.cpp", "src/Stats.cpp", "src/Double.cpp"]),
 "H01": asanp("H01", ["h01.cpp", "h01_dbg.cpp", "h01_copy.cpp"], ["src/HashFns.cpp", "src/HashTable.cpp", "src/Stats.cpp", "src/Double.cpp"]),
 "Q01": asanp("Q01", ["q01.cpp", "q01_dbg.cpp"]),
 "B01": asanp("B01", ["b01.cpp"], PT),
 "B02": asanp("B02", ["b02.cpp", "b02_dbg.cpp"], PT),
 "N01": asanp("N01", ["n01.cpp"], ["src/ConstantString.cpp", "src/HashFns.cpp", "src/HashTable.cpp", "src/Stats.cpp", "src/Double.cpp"]),
 "C01": asanp("C01", ["c01.cpp"], ["src/HashFns.cpp", "src/HashTable.cpp", "src/Stats.cpp", "src/Double.cpp"]),
 "V01": asanp("V01", ["v01.cpp"], ["src/StatsQuantile.cpp", "src/HashFns.cpp", "src/HashTable.cpp", "src/Stats.cpp", "src/Double.cpp", "src/LintelLog.cpp", "src/PThread.cpp", "src/SimpleMutex.cpp", "src/StringUtil.cpp", "src/ClockPThread.cpp", "src/Clock.cpp", "src/MersenneTwisterRandom.cpp"]),
 "V02": asanp("V02", ["v02.cpp"], ["src/StatsHistogram.cpp", "src/StatsSequence.cpp", "src/StatsSeries.cpp", "src/StatsSeriesGroup.cpp", "src/StatsEMA.cpp", "src/StatsMaker.cpp", "src/StatsRW.cpp", "src/Stats.cpp", "src/Double.cpp"]),
 "O01": asanp("O01", ["o01.cpp"], ["src/ProgramOptions.cpp", "src/StringUtil.cpp"], ["io.cpp"], linkextra=["-lboost_program_options"]),
 "G01": asanp("G01", ["g01.cpp"], ["src/MersenneTwisterRandom.cpp", "src/HashFns.cpp"]),
 "S02": asanp("S02", ["s02.cpp"], ["src/TestUtil.cpp", "src/StringUtil.cpp"]),
 "S01": asanp("S01", ["s01.cpp"], ["src/unstable/ProcessStatistics.cpp"], ["io.cpp"]),
 "P01": asanp("P01", ["p01.cpp"], [], ["io.cpp"]),
 "D01": asanp("D01", ["d01.cpp", "d01_dbg.cpp"]),
 "T01": thr("T01", PT), "T02": thr("T02", PT), "T03": thr("T03", PT), "T04": thr("T04", PT), "T05": thr("T05", PT), "T06": thr("T06", PT), "T07": thr("T07", PT, sims=["io.cpp"]),
 "T08": thr("T08", PT + ["src/StatsQuantile.cpp", "src/BoyerMooreHorspool.cpp", "src/LeastSquares.cpp", "src/StatsHistogram.cpp", "src/StatsSequence.cpp", "src/MathSpecialFunctions.cpp"]),
 "E01": thr("E01", PT),
 "L01": thr("L01", PT), "L02": thr("L02", PT), "L03": thr("L03", PT),
}

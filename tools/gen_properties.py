#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S, I, H, F, C, CP = "schedules", "inputs", "histories", "fault_sequences", "configurations", "crash_points"

# ---------------------------------------------------------------- atomics / locks
prop("A01", "Atomic counter updates are indivisible and return the right value",
 "Every read-modify-write operation of the atomic counter type (add-then-fetch, fetch-then-add, increment, decrement and the operator and free-function spellings, for every integer type offered) takes effect indivisibly: for any number of threads the final value is the initial value plus all deltas. Each call returns the value its spelling promises (the value just after, or just before, its own update) in one single total order of updates.",
 [S, H], "all instruction-level interleavings of any number of threads issuing any mix of operations on shared counters of any integer type, positive and negative deltas, wrap-around included",
 "the existing test runs a few threads on whatever interleavings the machine happens to give and only looks at a final sum; a non-atomic or wrongly-returning path needs an interleaving inside one instruction sequence.",
 ["include/Lintel/AtomicCounter.hpp"],
 [("atomic member operations", "include/Lintel/AtomicCounter.hpp: lintel::Atomic"), ("free unsafe atomic helpers", "include/Lintel/AtomicCounter.hpp: unsafe*")],
 [("counter", "the shared integer", "include/Lintel/AtomicCounter.hpp")])
prop("A02", "Atomic loads, stores and fences order memory between threads",
 "Loads and stores of the atomic type, together with its fence, are sequentially consistent with each other: two threads that each store to their own variable and then load the other's never both miss the other's store. A plain write made before an atomic store, exchange or update is visible to any thread that has observed that atomic value.",
 [S, H], "all interleavings of message-passing and store-buffering programs on a machine with per-thread store buffers (x86-TSO), with arbitrary delays of buffered stores",
 "store-buffer reordering shows up rarely on real hardware and never deterministically; the tests have no such program.",
 ["include/Lintel/AtomicCounter.hpp"],
 [("load/store/fence", "include/Lintel/AtomicCounter.hpp")])
prop("A03", "Low-level locks give mutual exclusion and hand-over",
 "For every low-level lock class offered (reader-writer lock, plain and spinning posix locks, busy-waiting atomic spin lock and yielding spin lock) at most one writer is inside at a time and, for the reader-writer lock, no reader is inside with a writer while readers may share. A lock that is released is eventually obtained by some waiter, and everything written before a release is visible to the next owner.",
 [S, H], "all instruction-level and system-call-level interleavings of any number of readers and writers, store-buffer delays included",
 "the existing lock test is a timing benchmark over real threads: it cannot steer the hardware into the racy window.",
 ["include/Lintel/Lock.hpp", "include/Lintel/AtomicCounter.hpp"],
 [("lock classes", "include/Lintel/Lock.hpp")])

# ---------------------------------------------------------------- PThread
prop("T01", "Mutexes and scoped lock/unlock objects exclude and always restore",
 "At most one thread is ever between acquiring and releasing a given mutex, whichever of the lock, try-lock, timed-lock or scoped spellings acquired it. A scoped lock holds the mutex exactly for its lifetime and a scoped unlock releases it exactly for its lifetime, on every exit path including exceptions and nested use, and after a release a waiting thread gets in. Diagnostics (is-locked, contention count) agree with what happened: the contention count is the number of blocking acquisitions that found the mutex held.",
 [S, H], "all interleavings of any number of threads using any mix of acquisition spellings, with exceptions leaving scopes at arbitrary points",
 "the thread tests take one real schedule per run; leaked or skipped releases on exception paths and narrow races are not reached.",
 ["include/Lintel/PThread.hpp.in", "src/PThread.cpp"],
 [("mutex classes", "include/Lintel/PThread.hpp.in: PThreadScopedOnlyMutex, PThreadMutex"), ("scoped objects", "include/Lintel/PThread.hpp.in: PThreadScopedLock, PThreadScopedUnlock")])
prop("T02", "Condition variables lose no wake-up and return holding the mutex",
 "A thread waiting on a condition is woken by a later signal (some one waiter) or broadcast (all waiters), so producer/consumer programs written with predicate loops always finish with every item delivered once. Waiting releases the mutex atomically with going to sleep and every return from a wait, timed or not, spurious or not, holds the mutex again.",
 [S, H, F], "all interleavings of producers, consumers and barriers, with spurious wake-ups, delayed wake-ups and early passage of time injected",
 "a lost wake-up needs the signal in a window of a few instructions, and spurious wake-ups practically never occur in a test run.",
 ["include/Lintel/PThread.hpp.in", "src/PThread.cpp"],
 [("condition variable", "include/Lintel/PThread.hpp.in: PThreadCond")])
prop("T03", "Try-lock and timed waits respect ownership and deadlines",
 "Try-lock never blocks, succeeds exactly when the mutex is free, and reports failure otherwise. A timed lock or timed wait returns success if the resource or a wake-up arrives before its deadline, and otherwise reports a timeout no earlier than the requested (relative or absolute) time has passed and promptly after it, for every whole or fractional duration and every phase of the clock.",
 [S, I, F], "all interleavings of holders, signallers and timed waiters over simulated time, all durations including zero and sub-second ones, all sub-second phases of the clock at the call",
 "tests use a couple of durations in real time; carry errors in deadline arithmetic depend on the wall-clock phase, and races between timeout and wake-up on the schedule.",
 ["include/Lintel/PThread.hpp.in", "src/PThread.cpp"],
 [("timed lock and waits", "include/Lintel/PThread.hpp.in, src/PThread.cpp")])
prop("T04", "Threads run exactly once, join returns their value, misuse is caught",
 "Each successful start of a thread object runs its body exactly once in a new thread, join returns only after the body has finished and yields the body's return value, and the body's effects are visible after the join. A joined thread object can be started again with the same guarantees; starting a live thread, joining one that is not live, a thread joining itself, or the system refusing to create a thread is reported as a fatal error rather than ignored.",
 [S, H, F], "all interleavings of parents and children, any sequence of starts, joins and misuse, any thread-creation refusal, default and custom attributes (stack size, detached)",
 "tests start a handful of threads that always succeed; refusal of thread creation and late or early finishing are not exercised.",
 ["include/Lintel/PThread.hpp.in", "src/PThread.cpp"],
 [("thread object", "src/PThread.cpp: PThread::start, PThread::join"), ("function-object thread", "include/Lintel/PThread.hpp.in: PThreadFunction")])
prop("T05", "Signal-blocking threads block all signals and restore the parent mask",
 "A thread of the signal-blocking kind (also used for function-object threads) runs its body from first to last instruction with every blockable signal blocked, so a process-directed signal is never handled in it. The thread that started it has exactly its previous signal mask once start returns, whether the start succeeded or failed by an exception, and no signal it has blocked is open to it in between.",
 [S, F, H], "all interleavings of start and child, arbitrary parent masks, signals arriving at any instant, thread creation refused or failing with an exception",
 "no existing test looks at masks on failure paths or delivers signals inside the start window.",
 ["src/PThread.cpp", "include/Lintel/PThread.hpp.in"],
 [("signal-blocking start", "src/PThread.cpp: PThreadNoSignals")])
prop("T06", "Lock-order levels are enforced and tracked per thread exactly",
 "Within a lock-ordering group a prepared thread may only acquire a lock whose level is strictly above the level it currently holds in that group; a violation is reported as a fatal error before the lock is taken, and a correct order never is. Levels are tracked separately per thread and per group and return to their earlier value on every release, scoped unlock, re-lock and exceptional exit.",
 [S, H], "all sequences of nested ordered acquisitions, scoped unlocks and exceptions, in any number of concurrent threads and groups",
 "the existing test checks one order and one violation in a few threads.",
 ["include/Lintel/PThread.hpp.in", "include/Lintel/LockOrderingGroup.hpp", "src/PThread.cpp"],
 [("ordering group", "src/LockOrderingGroup.cpp, include/Lintel/LockOrderingGroup.hpp")])
prop("T07", "Once-only initialisation happens once under concurrent first use",
 "State the library creates on first use (cached processor count, log instance, singleton mutexes) is created once however many threads race to it, and every caller sees the fully built result. The simple mutex used for that excludes even when first used concurrently, and the processor count equals the environment override if set, otherwise the number of processor entries the system reports, for every caller; if that listing cannot be read it is a fatal error, not a made-up count.",
 [S, I, F], "all interleavings of concurrent first uses, arbitrary processor listings and environment overrides",
 "a process initialises once, so a test run samples a single schedule of first use; the processor listing is whatever the host has.",
 ["include/Lintel/SimpleMutex.hpp", "src/PThread.cpp", "src/LintelLog.cpp"],
 [("simple mutex", "include/Lintel/SimpleMutex.hpp"), ("processor count", "src/PThread.cpp: getNCpus")])
prop("T08", "Threads using objects of their own get what they would get alone",
 "Threads that each use objects of their own - containers, byte buffers, quantile sketches and other statistics, tables and cubes, random generators, string, base64, search, fitting and numeric functions, failing assertions - get exactly the results they would get running alone, under every interleaving, also when those threads are the first users of the library in the process and when their byte buffers are copies that share storage (a write through one copy never shows in another). Concurrent reading of a const hash map, byte buffer, searcher or statistic gives every reader its true contents.",
 [S, H, F], "all interleavings at memory accesses of any mix of operations by several threads on separate objects, first use included",
 "tests of these classes run in one thread, so state hidden in the library (caches, tables built on first use, shared storage) is never raced.",
 ["include/Lintel/ByteBuffer.hpp", "src/StatsQuantile.cpp", "src/StringUtil.cpp", "include/Lintel/HashMap.hpp", "include/Lintel/Base64.hpp", "src/AssertBoost.cpp"],
 [("storage sharing", "include/Lintel/ByteBuffer.hpp: uniqueify, forceUnique"), ("size cache", "src/StatsQuantile.cpp: bk_cache"), ("first use", "include/Lintel/Base64.hpp: detranslate")])

# ---------------------------------------------------------------- Log
prop("L01", "Each log message reaches each appender exactly once, whole and serialised",
 "Every message logged from any thread while appenders are registered is given exactly once to each of them, in registration order, with its own text, type and category, and never two at the same time. Messages of one thread reach an appender in that thread's order, and with no appender registered they go to the console exactly once on the stream their type promises. The console appender that prints times prints one within the logging call.",
 [S, H], "all interleavings of any number of logging threads and of appender registration, all message types and categories",
 "the log tests are single-threaded.",
 ["src/LintelLog.cpp", "include/Lintel/LintelLog.hpp"],
 [("message delivery", "src/LintelLog.cpp: LintelLog::log, consoleAppender, consoleTimeAppender"), ("logging macros", "include/Lintel/LintelLog.hpp")])
prop("L02", "Log categories have unique stable ids and the configured debug level",
 "Every category name maps to one id, the same for every caller and forever, and different names have different ids, however many threads register concurrently. Whether a debug message is emitted is decided by the level last configured for its category (exactly or through a trailing-star pattern, directly or by a debug string; a debug string that does not give a level from 0 to 255 is refused and changes nothing for that category), whether the category is registered before or after the setting; running short of reserved categories is warned about once and exceeding them is a fatal error, never corruption.",
 [S, H, I], "all interleavings of registrations, level settings and level queries; all category names, patterns and debug strings; reserved capacities",
 "tests configure a few names sequentially.",
 ["src/LintelLog.cpp", "include/Lintel/LintelLog.hpp"],
 [("category table", "src/LintelLog.cpp: categoryToId, setDebugLevel, parseDebugString")])
prop("L03", "A failing appender or misuse leaves logging usable",
 "If an appender throws, the exception reaches the caller that logged and logging keeps working afterwards for every thread: no message of another thread is lost or duplicated and nobody blocks forever. The same holds when a fatal-error hook turns a category misuse (exceeding the reserve, shrinking it) into an exception.",
 [S, F, H], "all interleavings, with appenders throwing at arbitrary messages and misuse at arbitrary points",
 "no test makes an appender throw.",
 ["src/LintelLog.cpp"],
 [("log lock", "src/LintelLog.cpp: LintelLog::log, categoryToId")])

# ---------------------------------------------------------------- Clock
prop("K01", "The fast clock stays close to the system clock while time behaves",
 "While the cycle counter runs steadily and the system clock advances, each fast time-of-day reading differs from the true system time by no more than the calibration error over one recalibration interval plus the time the reading itself took, the resolution of the system clock and the longest accepted recalibration measurement. Recalibration keeps that true indefinitely, a recalibration interval too long for the arithmetic is refused, readings in seconds, microseconds and 32.32 fixed point agree, and conversions between them round-trip.",
 [S, C, H], "all cycle rates, recalibration intervals, gaps between readings, system-call latencies and run lengths of simulated time",
 "the real test looks at seconds of one host's clock; drift, long gaps and slow calls are out of reach.",
 ["src/Clock.cpp", "include/Lintel/Clock.hpp"],
 [("incremental time of day", "include/Lintel/Clock.hpp: todccTfrac_incremental, src/Clock.cpp: todccTfrac_recalibrate")])
prop("K02", "Clock readings survive counter jumps, slow reads and frequency change",
 "When the cycle counter goes backwards, jumps, differs between processors, or a thread is descheduled at any point, a reading still lies between the system time at its start and at its end or, while the fault cannot be seen from the counter, within one interval after the last calibration; a counter seen to have gone back or past the interval is never used, and the clock recovers by itself. With possible frequency scaling and a policy other than using it unsafely, readings come straight from the system; if a recalibration finds the system time of day earlier than the last one, the clock stops with a fatal error instead of returning nonsense.",
 [S, F, C], "all sequences of counter faults, descheduling and slow system calls at any point, all frequency-scaling policies, system-clock steps",
 "counter faults, migrations and clock steps cannot be produced by a test on a real host.",
 ["src/Clock.cpp", "include/Lintel/Clock.hpp"],
 [("recalibration", "src/Clock.cpp: todccTfrac_recalibrate"), ("fallback", "include/Lintel/Clock.hpp: todcc_incremental")])
prop("K03", "Clock calibration is accurate or refuses, and is per-thread safe",
 "Calibration, whenever it completes, has found the counter's rate to within a few percent (its confidence plus the resolution of the system clock) in spite of a few descheduled measurements or slow reads, it finishes in bounded time (at most ten tries of 400 measurements), and it refuses with a fatal error rather than accept an implausible rate. Threads may each set up and use their own clock concurrently, any number of times: calibration happens once and every thread has its own clock object.",
 [S, F, C], "all interleavings of concurrent setup, all latencies and descheduling patterns during measurement, all true rates",
 "one calibration per test process on one quiet host.",
 ["src/Clock.cpp", "include/Lintel/Clock.hpp"],
 [("calibration", "src/Clock.cpp: calibrateClock"), ("per-thread clocks", "src/Clock.cpp: perThreadInit, perThread")])

# ---------------------------------------------------------------- Posix / buffers / stats
prop("P01", "Posix wrappers transfer exactly what was asked or report failure",
 "The checked system-call wrappers return what the system returned on success and turn every failure into a fatal error naming it, never silently continuing. The read-N wrapper fills the caller's buffer with exactly the next bytes of the source in spite of arbitrary short reads, takes nothing beyond them from the source, and returns a smaller count only at the end of the input; the read-all-at-once wrapper reports anything but a complete read as a fatal error.",
 [F, I], "all sequences of short reads and writes, end of file, errors and interruptions of the underlying system calls",
 "real files and pipes on a quiet host never return short in the middle; errors are never injected.",
 ["include/Lintel/Posix.hpp"],
 [("wrappers", "include/Lintel/Posix.hpp")])
prop("B01", "Stream appends to a byte buffer deliver exactly the stream's bytes",
 "Appending from a stream adds, in order, exactly the bytes the stream delivered (limited to the requested amount or maximum) after the previous contents, and the return value is that number or the documented error indication when the stream failed, however the stream fragments, ends or fails. The buffer stays consistent after a failed or partial read.",
 [F, I, H], "all fragmentations, ends, errors and exceptions of the underlying stream at any byte, any buffer sizes and limits",
 "tests read from well-behaved in-memory streams.",
 ["include/Lintel/ByteBuffer.hpp"],
 [("stream appends", "include/Lintel/ByteBuffer.hpp: appendEntireStream, appendFromStream")])
prop("B02", "Byte buffers behave as values under sharing, mutation and failure",
 "A byte buffer's contents are those given by its sequence of operations, and mutating one of several buffers copied from each other never changes another; mutating a shared buffer that was not allowed to copy is a fatal error that changes nothing. A failed memory allocation leaves every buffer with either its old contents or the operation's completed result, without leaks or invalid access.",
 [H, F], "all histories of appends, consumes, copies, assignments, replacements and mutable accesses, with any allocation failing",
 "tests run one straight-line history without failures.",
 ["include/Lintel/ByteBuffer.hpp"],
 [("copy on write", "include/Lintel/ByteBuffer.hpp")])
prop("S01", "Process statistics report the system's numbers or fail, never stale junk",
 "A query of process statistics returns the values the system reports at that moment, scaled to bytes, and a cached query returns those of the last refresh until invalidated. If the system's report cannot be opened or read completely, that is a fatal error, not a made-up value, and no file handle leaks.",
 [F, H], "all contents and fragmentations of the system's report, all open/read failures, any sequence of queries, refreshes and invalidations",
 "the host's own report is always well-formed.",
 ["include/Lintel/unstable/ProcessStatistics.hpp", "src/unstable/ProcessStatistics.cpp"],
 [("report parser", "include/Lintel/unstable/ProcessStatistics.hpp")])

# ---------------------------------------------------------------- containers
prop("D01", "The deque behaves as a FIFO sequence through growth, reuse and failure",
 "Any history of pushes, pops, clears, reserves, indexed accesses and iterations gives what a reference sequence gives, elements keep their order through growth and wrap-around, and with debugging enabled out-of-range use is caught. If an allocation or an element copy fails inside an operation, the deque keeps a consistent contents (before or after that operation) and no element is lost twice, leaked or destroyed twice.",
 [H, F], "all operation histories and sizes, with any allocation or element copy failing",
 "tests run a couple of long histories without failures.",
 ["include/Lintel/Deque.hpp"],
 [("ring buffer growth", "include/Lintel/Deque.hpp: push_expand")])
prop("H01", "Hash tables and maps agree with a reference map through failures",
 "For any history of insert, lookup, default-get, remove, erase-through-iterator, clear, reserve, copy and iterate operations the hash table, map and unique-set answer as a reference container would; iteration visits each entry once, and removing or growing never loses, duplicates or resurrects an entry. If a memory allocation or element copy fails inside an operation, every other entry stays intact and findable, the table remains usable and no memory is corrupted.",
 [H, F], "all operation histories over colliding and non-colliding keys and all table sizes, with any allocation or element copy failing",
 "tests cover a few fixed histories and never fail an allocation.",
 ["include/Lintel/HashTable.hpp", "include/Lintel/HashMap.hpp", "include/Lintel/HashUnique.hpp"],
 [("chained table", "include/Lintel/HashTable.hpp"), ("map interface", "include/Lintel/HashMap.hpp"), ("set interface", "include/Lintel/HashUnique.hpp")])
prop("H02", "The rotating map keeps recently used entries and hands out each old one",
 "Entries touched by a promoting lookup, or added since the last rotation, survive the next rotation; entries not touched for a full rotation period are handed to the rotation callback exactly once with their latest value and are then gone. Existence checks without promotion, removal, walking and sizes agree with a two-generation reference model, and a callback or allocation failing leaves a usable map that has neither lost nor duplicated the entries it kept; if the callback fails part-way, the rotation has not happened and the next one starts over.",
 [H, F], "all histories of insert, lookup, remove, rotate, flush and walk, with failing allocations and callbacks",
 "tests follow one short history.",
 ["include/Lintel/RotatingHashMap.hpp"],
 [("rotation", "include/Lintel/RotatingHashMap.hpp")])
prop("Q01", "The priority queue always yields the most important element",
 "For any history of push, pop, replace-top, reserve and clear operations, the top is always an element no other stored element is more important than, and each pushed element comes out exactly once. If an allocation or element copy fails (exchanging two elements does not), the queue keeps all elements it had, remains correctly ordered and usable.",
 [H, F], "all operation histories with ties, growth and duplicates, with any allocation or element copy failing",
 "tests use random pushes and pops without failures.",
 ["include/Lintel/PriorityQueue.hpp"],
 [("heap", "include/Lintel/PriorityQueue.hpp")])
prop("N01", "Interned strings stay unique and stable through failures",
 "Interning equal strings gives the identical stored string and different strings (binary data and zero bytes included) give different ones, and comparing or printing interned strings agrees with their full texts; an interned string keeps its text, length and place for ever, however many strings follow. A failed allocation or an over-long string fails that request only: every earlier and later interned string stays valid and unique.",
 [H, F], "all histories of interning and lookup over any strings (embedded NULs, long, empty), any allocation failing",
 "tests intern sequentially and never fail an allocation.",
 ["src/ConstantString.cpp", "include/Lintel/ConstantString.hpp"],
 [("constant-string pool", "src/ConstantString.cpp")])

# ---------------------------------------------------------------- statistics
prop("V01", "Quantile sketches stay within their stated error through merges and failures",
 "While at most the announced number of values was added, getQuantile returns one of the added values whose rank differs from the exact one by at most the stated error (a merge may add the error of what was merged), in any order of values, after any mix of adding, merging, querying and resetting, and count, extremes and mean are those of the same values; beyond the announced number it refuses. A failed allocation in adding a value, merging or constructing leaves the sketch holding exactly the values it held before and usable, and everything a sketch allocated is freed with it.",
 [H, F], "all sequences of values, merges of differently sized sketches (empty ones included), queries and resets, any allocation failing",
 "tests add a few fixed sequences and never fail an allocation or merge an empty sketch.",
 ["src/StatsQuantile.cpp", "include/Lintel/StatsQuantile.hpp"],
 [("sketch", "src/StatsQuantile.cpp: addQuantile, add, collapse, getQuantile, init")])
prop("V02", "Statistics collectors hold exactly the values they accepted",
 "Every collector counts, sums and spans exactly the values it accepted. In a histogram, uniform or logarithmic, of fixed range, rescaling or growing, each accepted value is counted (and its data value added) in the one bin whose bounds hold it (outliers of a fixed range in the end bins), so the bins add up to the count; a growing histogram keeps its width, a rescaling one its number of bins, and both include what they accepted; mode and percentiles follow from the bins. A sequence holds the sum, mean or maximum of equal runs of consecutive values, as few per place as fit. Autocovariances and decaying averages are those of their definitions. A group gives each value to the statistic of its range, its interval of time, or its kind of access, and a named statistic is of the kind its longest defined prefix says. Reading past the last bin, place, lag or interval is refused. A value that is refused, or whose adding runs out of memory, leaves the collector as it was, and everything it allocated is freed with it, or by a constructor that fails.",
 [H, F], "all histories of adding values (outliers, bounds, values next to bounds, refused ones), pairs, resets and definitions over all kinds of collectors, any allocation failing",
 "the tests print one fixed sequence, most of these classes have no test that runs, and no allocation fails.",
 ["src/StatsHistogram.cpp", "include/Lintel/StatsHistogram.hpp", "src/StatsSequence.cpp", "src/StatsSeries.cpp", "src/StatsSeriesGroup.cpp", "src/StatsEMA.cpp", "src/StatsMaker.cpp", "src/StatsRW.cpp", "src/Stats.cpp"],
 [("histograms", "src/StatsHistogram.cpp: add, growBins, sampleBin"), ("sequence", "src/StatsSequence.cpp: add"), ("groups", "src/StatsSeriesGroup.cpp: addTimeSeq; src/StatsMaker.cpp: getDefaultStatDef")])
prop("S02", "Questions about the machine are answered truly or refused",
 "Asking for the full host name gives the canonical name of the lookup if there is one, else the machine's own name, and fails only if the machine has none; the operating system, version and processor are those in the environment or else those deptool reports, whole, however long and in whatever pieces its output comes, and all empty if there is no deptool; the time of a file is its modification time to the nanosecond. A failing lookup, pipe, read, file or allocation never gives another answer, and afterwards nothing stays open or allocated.",
 [H, F], "all names, reports and times, all failures of the calls that give them, all chunkings of the reports, all allocation failures",
 "no test of these runs with another answer than this machine's, or with a failing call.",
 ["src/StringUtil.cpp", "src/TestUtil.cpp", "include/Lintel/FileUtil.hpp"],
 [("host name", "src/StringUtil.cpp: getHostFQDN"), ("system", "src/TestUtil.cpp: getDeptoolInfo"), ("file time", "include/Lintel/FileUtil.hpp: modifyTimeNanoSec")])
prop("G01", "A seed repeats a random generator's results, whatever else happens",
 "A generator that was given a seed (a number, or for the Mersenne twister also a list) gives from then on the same results for the same calls, whatever it gave before, wherever it lies, whether it is a copy, and whatever the clock, the process and other generators do; those of the Mersenne twister are the published ones. A generator made without a seed takes one from the clock and the process, tells which, and is repeated by it; made in another process or at another microsecond it has another. Every result lies in its stated range, also for extreme raw numbers; shuffling keeps every element; and seeding that runs out of memory changes nothing.",
 [H, F], "all histories of making, seeding, copying and drawing over all kinds of generators and seeds, all contents of the memory they are made in, all clocks and process ids",
 "the tests draw from one fresh generator of some of the kinds in zeroed memory and do not seed one again.",
 ["include/Lintel/RandomBase.hpp", "include/Lintel/MersenneTwisterRandom.hpp", "src/MersenneTwisterRandom.cpp", "include/Lintel/MarsagliaRandom.hpp"],
 [("derived draws", "include/Lintel/RandomBase.hpp"), ("seeding", "src/MersenneTwisterRandom.cpp: MersenneTwisterInternal, init, initArray; include/Lintel/MarsagliaRandom.hpp: init")])
prop("O01", "Program options hold what was given last, nothing of a failed parse",
 "After parsing a command line, a word list or a configuration file, every option given there has the value given (a repeatable option all of them, in order), every other option keeps what it had, and one never given has its default and says it is unused; words that belong to no option come back in order, if the caller allows them. If parsing is refused - an unknown option, a bad value, a single option given twice, a configuration file that cannot be opened or cannot be read to its end, an environment that makes no sense - no option changes (running out of memory may leave each option with its old or its new value, never another), the file is closed, and the same parse succeeds once the reason is gone, even if an option's own definition failed part-way. The usage text shows each visible option once, testing options not at all, loses no word of the help text and fits the width of the terminal.",
 [H, F], "all histories of defining, parsing, setting and showing options, all chunkings and failures of the reads of the configuration, all allocation failures",
 "the tests parse a few fixed lines in new processes, each once, from files that read perfectly.",
 ["src/ProgramOptions.cpp", "include/Lintel/ProgramOptions.hpp"],
 [("command line", "src/ProgramOptions.cpp: parseCommandLine, processOptions"), ("configuration", "include/Lintel/ProgramOptions.hpp: parseConfigFile"), ("definition", "src/ProgramOptions.cpp: runProgramOptionInitFns")])
prop("C01", "Rollup tables and cubes agree with the samples and survive failing functions",
 "A table of statistics by key holds exactly the keys added, each with the statistics of its samples; walking visits each entry once (in key order when asked to), walking with zeros visits every combination of the distinct values; pruning removes exactly the entries chosen. Cubing gives for every combination of fixed and any positions that is wanted the combination of all matching rows, zero rows included when asked. If an allocation or a user's factory, combining, pruning or walking function fails part-way, no entry is left without its statistic, nothing leaks, the base data is unchanged, and the table or cube can be used, cleared and built again.",
 [H, F], "all histories of adding, cubing, walking, pruning and clearing over any keys, any allocation or user function failing at any call",
 "tests cube one small fixed table and no function or allocation ever fails.",
 ["include/Lintel/HashTupleStats.hpp", "include/Lintel/StatsCube.hpp", "include/Lintel/Tuples.hpp", "include/Lintel/HashUnique.hpp"],
 [("table", "include/Lintel/HashTupleStats.hpp: getHashEntry, walkZeros, prune"), ("cube", "include/Lintel/StatsCube.hpp: cube, zeroCube, getCubeEntry, prune")])

# ---------------------------------------------------------------- assertions
prop("E01", "A failed assertion runs its hooks and never continues past the check",
 "When a checked condition fails, the registered before-hooks run once each in order with the failure's details, the message is written, the after-hooks run, and the process aborts; execution never continues past the failed check unless a hook throws the assertion exception (or one not derived from std::exception), which then reaches the caller, and later failures are reported just as fully. Passing conditions have no effect, and hooks that themselves fail do not recurse without end or prevent the abort.",
 [S, F, H], "all sequences of passing and failing checks from any number of threads, hooks that return, throw, fail themselves or change the hook lists, output failing",
 "death can be tested only once per process and the tests cover a handful of single-threaded sequences.",
 ["src/AssertBoost.cpp", "include/Lintel/AssertBoost.hpp"],
 [("failure path", "src/AssertBoost.cpp: AssertBoostFail")])

# ---------------------------------------------------------------- perl / multi process
prop("F01", "The file-lock helper gives one holder at a time and honours its wait time",
 "At any instant at most one process holds the lock on a given file name obtained through the Perl helper getLock, a killed or exited holder (or one that drops its handle) frees it, and a waiter then gets it. With a wait time the helper gives up with an undefined result no earlier than that time by the system clock and within about a second after it; without one it waits, through signals and handlers, until it has the lock. Any other failure is an exception, never a lock that is not held.",
 [S, CP, F], "all interleavings of any number of contending processes, holders killed at any point, system-call errors and interruptions, all wait times (the system clock itself runs steadily)",
 "the test uses two processes with real sleeps.",
 ["src/Lintel/File/Lock.pm"],
 [("getLock", "src/Lintel/File/Lock.pm: getLock")], hook="symbol interposition")
prop("F02", "The lock command runs its command exclusively and passes on its status",
 "However many instances of lintel-flock contend for one file, the commands they protect and the sections of the callers they hold the lock for never overlap while those instances live; the exit status tells truthfully whether the lock was obtained and what the command returned. A holder tied to a caller's process keeps the lock until that process has ended or it is told to unlock, and frees it soon after, and a time limit ends the wait with failure without running the command.",
 [S, CP, F], "all interleavings of contending instances and callers of one user, instances, callers and commands killed at any point, time limits, command outcomes, refused forks, errors of flock and open; a process id is not used again while a holder watches it, and the lock of an instance that is itself killed is free at once",
 "the test runs one real schedule with sleeps.",
 ["src/lintel-flock.in"],
 [("lintel-flock modes", "src/lintel-flock.in")], hook="symbol interposition")
prop("M01", "The process manager reports each child exactly once with its own status",
 "Every child started through the Perl process manager is reported by the wait calls exactly once, with its own exit status, and its exit function runs exactly once with that status; waiting for one child returns only that child's status, waiting for all returns when none is left, and a timed wait returns within its limit. No child is lost, invented or left a zombie, whatever the order in which children end, however signals interrupt the waits, and also if one ends before it has set up its output; redirected output goes to the requested place, a refused fork registers nothing, and a child whose command cannot be started or whose function dies ends there with a failure status instead of going on with its parent's code.",
 [S, F, CP, H], "all orders and times of child exits and kills, any mix of wait calls and timeouts, signals interrupting waits, fork failures, reused process ids",
 "tests start few children and wait with real sleeps.",
 ["src/Lintel/ProcessManager.pm"],
 [("wait loop", "src/Lintel/ProcessManager.pm: wait, waitPid, waitAll, fork")], hook="symbol interposition")
prop("J01", "Batch runs build each thing once and install only complete results",
 "One run of batch-parallel starts each out-of-date item exactly once, never more than the -j limit at a time, and skips what is up to date; the tasks of an array job divide the items among them, each to exactly one task. A name of a result only ever holds the complete result of a successful rebuild: a failing, crashing or killed rebuild, or a killed driver, leaves the earlier result (or none), and a later run without failures brings everything up to date. For a jobs file, a job's output has its final name exactly if its command succeeded, holds the whole output, and such a job is never run again.",
 [S, CP, F], "all orders and times of job completion, jobs failing or killed at any point, the driver killed at any point between system calls, file-operation errors, all parallelism limits",
 "the tests run successful jobs on a quiet host.",
 ["src/batch-parallel.in", "src/BatchParallel/common.pm", "src/BatchParallel/jobsfile.pm"],
 [("local_parallel", "src/batch-parallel.in: local_parallel, finish_child"), ("array jobs", "src/batch-parallel.in"), ("rebuild protocol", "src/BatchParallel/common.pm: rebuild_thing_do, rebuild_thing_success"), ("jobs file", "src/BatchParallel/jobsfile.pm: rebuild_thing_do, rebuild_thing_success")], hook="symbol interposition")
prop("J02", "Batch compression never loses data, and a checksum file is always right",
 "While the compress module of batch-parallel works through a tree (and checks its results, as it does by default), the contents of every file exist at every moment in some file of the tree that can be read or unpacked completely: an original disappears only after its verified compressed replacement has its final name, whatever fails or is killed, and an original that cannot be read completely stays as it is. The checksum module leaves under the final name only complete checksum files with the sums of the complete contents, packed and unpacked. A later run without failures finishes the work.",
 [S, CP, F, I], "all trees of plain, packed, damaged and empty files, workers, tools and the driver killed at any point between system calls, tools failing or silently writing wrong data, disk full, short writes, errors of open, rename and unlink, refused forks; no two sources with the same destination",
 "the tests have no case for these modules, and the losses need a failure at a particular point.",
 ["src/BatchParallel/compress.pm", "src/BatchParallel/checksum.pm", "src/BatchParallel/common.pm"],
 [("compress", "src/BatchParallel/compress.pm: rebuild, rebuild_thing_success"), ("checksum", "src/BatchParallel/checksum.pm: rebuild, checksum")], hook="symbol interposition")
prop("J03", "A per-file command sequence and a set of archives are complete or absent",
 "The make module of batch-parallel runs a file's commands in their order, each with that file's own names, and none after one that failed or could not be started; the output gets its final name only after all of them succeeded, the private temporary directory is gone when the job ends, at most as many jobs as allowed run at a time, what is up to date is not built again, and a dry run shows for every file exactly the commands that would run and changes nothing. The tar module puts every source into exactly one archive, no archive over the size limit, and an archive with its final name is always complete. After a run without failures everything is up to date.",
 [S, CP, F, I], "all command sequences and trees, workers, commands and the driver killed at any point between system calls, commands failing, disk full, short writes, errors of open, rename and unlink, refused forks and program starts; pipelines as the shell reports them",
 "the tests have no case for these modules.",
 ["src/BatchParallel/make.pm", "src/BatchParallel/tar.pm", "src/BatchParallel/common.pm", "src/batch-parallel.in"],
 [("make", "src/BatchParallel/make.pm: do_rebuild, rebuild, rebuild_thing_message"), ("tar", "src/BatchParallel/tar.pm: find_things_to_build, newThing, rebuild_thing_do, rebuild_thing_success")], hook="symbol interposition")


prop("R01", "A database transaction is all or nothing and its caller knows which",
 "When Lintel::DBI's transaction() returns normally, the function it was given ran exactly once, inside a database transaction, and all its changes are durable together. When it raises an exception none of the changes are in the database (unless the connection broke while committing, when it is all or none), no transaction is left open on a usable connection, and the exception is the very one the function or the database raised (with trace_errors, its text is in the message), also when the rollback fails too.",
 [F, CP, H], "all transaction bodies, exception values (objects, false values, texts), nested evals and early returns; statement, begin, commit and rollback failures, deadlock aborts, lost connections, drivers that use eval, several clients and clients killed at any point",
 "the only test of this module looks at splitSQL; it has no database.",
 ["src/Lintel/DBI.pm"],
 [("transaction", "src/Lintel/DBI.pm: transaction, beginTxn, commitTxn, rollbackTxn, runSQL")], hook="a DBI driver that talks to the simulator")
prop("R02", "Each schema step takes effect exactly once, together with its version",
 "While at most one process sets up an application's schema at a time, every installation and every migration step either takes effect completely and together with the version number it leads to, or not at all, and never twice, whatever statement, commit or connection fails and whenever the process is killed; schemas and settings of other applications are untouched. setupSchema returns normally exactly when the database is at the wanted version, and otherwise raises an exception; a fresh database can be installed and a known older one migrated. A database error is never taken for a missing version or setting: getInstalledSchemaVersion and getConfig give the stored value, undef exactly when there is none, or die; setConfig returns only when the value is stored as given and refuses reserved names.",
 [F, CP, H], "all sequences of releases (upgrades, downgrades, broken and missing steps, steps that skip versions, databases from before version keeping), several applications at once, drivers that check statements when preparing or not, servers that cut long values, every database error and kill point; the server's schema statements are transactional",
 "the only test of this module looks at splitSQL; it has no database.",
 ["src/Lintel/DBI.pm"],
 [("setup and migration", "src/Lintel/DBI.pm: setupSchema, migrateSchema, loadSchema"), ("settings", "src/Lintel/DBI.pm: getConfig, setConfig, dbiSetConfig, getInstalledSchemaVersion"), ("documents", "src/Lintel/DBI.pm: splitSQL, nextStatement")], hook="a DBI driver that talks to the simulator")
prop("R03", "Database query helpers give the right answer or die",
 "value, requiredValue, oneRow, oneRowArray, atMostOneRow, atMostOneRowArray and the fetch loops of Lintel::DBI return exactly what the query yields; the helpers that promise one row (or at most one) and one column die when the result has another shape, and an error while preparing, executing or fetching any row, including the one that only shows the result has ended, is never taken for an empty or complete result. A named statement is the one last loaded under that name, queries in progress at the same time do not disturb each other, and runSQL runs its statements in order up to the first that fails, which it reports.",
 [F, H], "all result shapes, helpers and mixes of queries in progress, errors at any prepare, execute or fetch",
 "the only test of this module looks at splitSQL; it has no database.",
 ["src/Lintel/DBI.pm"],
 [("helpers", "src/Lintel/DBI.pm: packages Lintel::DBI::sth, DBI::st, Lintel::DBI::exec_sth, load_sths, runSQL")], hook="a DBI driver that talks to the simulator")

# ---------------------------------------------------------------- pure functions, listed but not claimed
NA = [
 ("X01", "Base64 encoding and decoding round-trip", "Encoding any byte sequence to base64 and decoding it gives the sequence back, and decoding malformed input is reported as an error.", ["include/Lintel/Base64.hpp"], "include/Lintel/Base64.hpp"),
 ("X02", "String utilities split, join, convert and parse without loss", "Splitting and joining are inverse, number parsing accepts exactly valid numbers and reports others as errors, and hex and XML escaping round-trip.", ["src/StringUtil.cpp", "src/XMLUtil.cpp"], "src/StringUtil.cpp"),
 ("X03", "Running statistics equal the exact statistics of the samples", "Count, mean, variance, extremes and confidence intervals equal those computed directly from all samples, whatever their order.", ["src/Stats.cpp"], "src/Stats.cpp"),
 ("X05", "Boyer-Moore search finds exactly the occurrences", "The search reports a match exactly when the needle occurs in the haystack, at its first position.", ["src/BoyerMooreHorspool.cpp"], "src/BoyerMooreHorspool.cpp"),
 ("X06", "Hash functions are stable and depend on every byte", "Hashing equal inputs gives equal results on every run and platform, reading exactly the given bytes.", ["src/HashFns.cpp"], "src/HashFns.cpp"),
 ("X08", "Least-squares fits minimise the squared error", "The fitted line or quadratic has minimal squared error for the given points.", ["src/LeastSquares.cpp"], "src/LeastSquares.cpp"),
]
for id, t, s, files, where in NA:
    prop(id, t, s, [I], "all inputs", "tests sample a few inputs; but no schedule, clock, fault or I/O is involved", files, [("function", where)])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")

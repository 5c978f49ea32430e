#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and props.PROPS."""
import json, os, subprocess
from props import PROPS
B, H, N, S3, T, M, ST, U, G = ("src/jitterentropy-%s.c" % x for x in ("base", "health", "noise", "sha3", "timer", "base", "status", "uuid", "gcd"))
AM, AR, AN, AC, AF, AT, AA, ATI = ("arch/jitterentropy-arch-%s.c" % x for x in ("memory", "random", "ncpu", "cache", "fips", "thread", "atomic", "timer"))
K = lambda x: "linux_kernel/jitterentropy_%s.c" % x

def P(id, title, stmt, over, text, why, files, mech, state=(), obs=(), hook=None):
    return {"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(obs), "hook_needed": hook}}

TEXT = [
P("P01", "A health alarm stops output: right code, no data, no silent comeback",
  "In FIPS and NTG.1 mode a read that meets a health alarm returns the error code documented for the most severe alarm present (permanent before intermittent) and hands none of the failed block to the caller. An instance that has reported an alarm never delivers data again through the plain read, and after a permanent alarm never again through any call, until it is released. Without an alarm a read never fails.",
  ["histories", "inputs", "fault_sequences"], "every sequence of time stamps, every sequence of reads on an instance, every combination of alarms",
  "unit tests drive single alarms with a few hand-written clocks; the guarantee is over every clock and call history",
  [B, H], [("priority of the verdict and error return", B + " read loop"), ("alarm word never cleared", H)], [("health failure word", "alarms seen by the instance", H)], ["return codes", "caller's buffer", "status document"]),
P("P02", "Health tests raise exactly the published alarms on every time series",
  "On every sequence of time stamps, the repetition count, adaptive proportion, lag predictor and memory repetition tests raise an intermittent or permanent alarm exactly when the published procedure with the published cutoffs for the instance's oversampling rate and mode says so: neither a missed nor a spurious alarm. This includes time running backwards, standing still, jumping or wrapping around, window boundaries, start-up and the state carried into a replacement instance.",
  ["inputs", "histories", "configurations"], "every clock behaviour, oversampling rate 3-20, standard / FIPS / NTG.1 mode",
  "tests feed some constant or recorded series; cutoff boundaries across rates, modes and window positions are not sampled",
  [H, N], [("RCT/APT/lag/memory tests and cutoff tables", H), ("stuck detection", H)], [("counters and cutoffs", "state of the tests", "struct rand_data")], ["return codes", "failure callback", "status document"]),
P("P03", "Every output block is backed by enough fresh, non-stuck samples",
  "Each 256-bit block handed out rests on at least the documented number of fresh non-stuck timing samples (oversampling rate times 256, plus 65 per unit in compliance modes), all taken after the previous block and all fed to the conditioner; stuck samples are never counted. In FIPS and NTG.1 mode an instance additionally completes a memory-access stage and a separate hash stage of that size before its first output, also after a recovery.",
  ["inputs", "histories", "configurations"], "every clock, including clocks with arbitrarily many stuck samples; every configuration",
  "tests cannot see how many samples went into a block; a missing sample leaves the output looking random",
  [N, B], [("collection loop and start-up stages", N), ("start-up stage bookkeeping", B)], [("startup state", "stages left", "struct rand_data")], ["time stamps consumed per call", "output bytes"]),
P("P04", "Output is exactly the specified conditioning of the samples, never reused",
  "For every sequence of time stamps the bytes returned are bit for bit those of the specified XDRBG-256/SHAKE-256 conditioning of that instance's samples, whatever the request length and splitting, and the state is advanced irreversibly with every block. No output block is ever handed out twice, exactly the requested number of bytes is written and nothing beyond the caller's buffer.",
  ["inputs", "histories", "configurations"], "every time series, request length, splitting into calls, working-set and hash-loop configuration",
  "known-answer tests fix single vectors of the primitives; the composition over call histories has no fixed expected value",
  [S3, N, B], [("conditioning and generate step", N), ("Keccak, SHA3, SHAKE, XDRBG", S3)], [("conditioner state", "XDRBG state", "struct rand_data")], ["output bytes"]),
P("P05", "The recovering read escalates only as documented and never lowers the bar",
  "The recovering read retries only after intermittent alarms: it re-runs the start-up tests, replaces the instance by one with a higher oversampling rate (and more hash loops, and more memory unless the caller capped it) that completes its whole start-up and inherits health state, identity and accounting, and then continues. It gives up with the alarm's code when the rate limit, a start-up test or an allocation stands in the way, leaving the old instance valid, in its error state and releasable; permanent alarms and a failed self test are returned at once.",
  ["histories", "fault_sequences", "inputs"], "every clock, alarm sequence, allocation or start-up failure at any point of the recovery, repeated recoveries",
  "tests reach one or two recoveries with one clock; failures in the middle of a recovery and repeated escalation are not sampled",
  [B, H], [("health failure reset ladder", B), ("state duplication", H)], [("reinitialization count, flags, osr", "escalation state", "struct rand_data")], ["return codes", "output bytes", "status document"]),
P("P06", "Start-up tests give the documented verdict on any clock",
  "For every behaviour of the clock during the start-up tests the verdict is the documented one: missing, too coarse, non-monotonic, insufficiently varying, stuck or unhealthy clocks are each rejected with their code, and a clock showing none of these is accepted. The common divisor used to scale all later samples is the one observed in the first test of the process that accepted its divisor, and never changes.",
  ["inputs", "configurations"], "every time series of the start-up measurement, every oversampling rate and flag combination",
  "tests use a handful of mocked clocks; thresholds (how many backward steps, 90 % stuck, divisor) are not probed on both sides",
  [B, G], [("time-source test", B), ("GCD analysis", G)], [("common divisor", "scale of samples", G)], ["return value of the initialization", "later output"]),
P("P07", "No instance without passed start-up tests",
  "An instance is handed out only if the most recent start-up verdict in the process is a pass, obtained over the conditioning self test, the divisor self test and the timer tests; if there is none, the allocation runs them itself first and refuses when they fail. This holds whatever allocation or self-test failures occurred before, at any point, and for concurrent callers.",
  ["histories", "fault_sequences", "schedules"], "every order of initializations and allocations, memory failure at every allocation, broken constants, concurrent threads",
  "tests check the gate once per outcome, with no failure inside the tests and no concurrent caller",
  [B], [("self test mark and its checks", B)], [("startup mark", "tests passed in this process", B)], ["initialization verdict", "instance granted or refused", "time stamps consumed"]),
P("P08", "Every failure path returns what it took",
  "Whatever call fails at whatever point (any allocation, protection, lock, thread or file operation), once all instances are released no memory mapping, descriptor or thread obtained by the library remains, nothing is released twice or used after release, and the failing call reports its failure.",
  ["fault_sequences", "histories"], "a failure at every allocation of every operation, combined with every later operation",
  "the fault tests fail single allocations by count in fixed scenarios, not in recoveries or combinations",
  [B, AM, T, G, AR], [("error unwinding", B), ("release", AM)], [], ["ledger of OS resources kept by the simulated OS"]),
P("P09", "State memory is guarded, kept out of dumps, and wiped on release",
  "All memory holding generator state lies between inaccessible guard pages and is excluded from core dumps for its whole life. When it is returned to the operating system, on every path including failed start-ups and recoveries, it has been overwritten completely.",
  ["histories", "fault_sequences", "configurations"], "every release path, every working-set size, every failure point",
  "freed memory cannot be inspected by a test; here the simulated OS inspects each mapping as it is released",
  [AM, B, S3, G], [("guarded allocation, wipe before unmap", AM)], [], ["content of each mapping at the moment of its release"]),
P("P10", "Required memory locking is never silently skipped",
  "If secure memory is requested, or implied by FIPS or NTG.1 flags, every mapping of the instance is locked, and if locking fails at any point the initialization or allocation (also one made during recovery) fails instead. Without that requirement locking refused for lack of privilege or quota does not prevent operation, and the status document reports which of the two applies.",
  ["fault_sequences", "configurations", "histories"], "lock failure with any error at any allocation of any operation",
  "tests run with one process limit; a failure of the n-th lock during a recovery is not sampled",
  [AM, B, ST], [("lock and its error policy", AM), ("flag implication", B)], [], ["lock state of mappings in the simulated OS", "result of init/alloc/read", "status document"]),
P("P11", "A failed self test takes the instance out of service for good",
  "The self test reports a corrupted conditioning component. When a self test bound to an instance fails, that instance answers every later data request with the self-test error, in every mode, even if a later self test passes, even across an automatic recovery, and even if the test ran in the failure callback or on another thread while data was being read; other instances are unaffected. A start-up test on a corrupted component fails.",
  ["histories", "fault_sequences", "schedules"], "corruption appearing and disappearing at any time, self tests at any point, also concurrent with reads",
  "tests set the flag by hand in one place; transient corruption and interleavings are not sampled",
  [B, S3, H], [("self test and its mark", B)], [("self-test mark", "instance out of service", "struct rand_data")], ["return codes"]),
P("P12", "Concurrent initialization, allocation and use are safe",
  "Any number of threads may initialize, allocate, read from their own instances and run self tests concurrently: every call terminates with the same result it could give when run alone, all instances scale their samples with one common divisor, and no interleaving crashes, deadlocks or leaks. Configuration calls take effect before the first initialization and are refused afterwards.",
  ["schedules", "histories"], "every interleaving of the calls' memory accesses and thread operations",
  "tests run threads natively; which interleavings occur is up to the machine",
  [B, T, G, AA, H], [("atomic publication of process-wide state", AA), ("divisor set once", G)], [("process-wide marks", "startup, divisor, forced timer", B)], ["return values", "status documents", "resource ledger"]),
P("P13", "Instances are independent: schedules never change an instance's output",
  "The data, results and status an instance delivers depend only on its own calls and its own time stamps: other instances being created, read, failing, recovering or released on other threads, in any interleaving, never change them.",
  ["schedules", "histories"], "every interleaving of several threads with one instance each",
  "native runs are never repeatable, so no test can compare an instance's output with and without neighbours",
  [B, N, S3, H], [("per-instance state only", "struct rand_data")], [], ["output bytes per instance compared with the same instance run alone"]),
P("P14", "The internal timer thread runs exactly while it is needed",
  "With the internal timer a counting thread exists only while an instance collects entropy: every started thread is stopped and joined exactly once before the call returns, on success, alarm, recovery and failure alike, and never touches an instance after its release. Time read from it always advances, collection ends under any scheduling that lets the thread run, failing thread creation is reported as a failure, and the thread runs only where at least two CPUs are available and is pinned to the configured CPU or else the highest allowed one. The same holds for a thread handler the application registers itself: it is initialised, started, stopped and torn down in matching pairs, its context is neither read nor written, and its thread is moved to a CPU only if one was configured.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of counting thread and reader, thread creation failing at any point, arbitrary CPU sets",
  "the existing tests start real threads a few times and cannot control their scheduling or make their creation fail",
  [T, AT, B, AN], [("start/stop of the counting thread", T), ("create/join with started flag", AT)], [("counter, interrupt flag", "shared between the threads", "struct rand_data")], ["thread operations seen by the simulated OS", "return values"]),
P("P15", "The internal timer is used only where allowed; contradictions are refused",
  "An NTG.1 instance, or one that disables the internal timer, never runs on it; requests that both force and disable it, or force it for NTG.1, and oversampling rates above the maximum are refused, as are compliance modes without memory access. A failed NTG.1 initialization never forces the internal timer on the process. The instance obtained has exactly the requested flags, with rate and sizes adjusted only to their documented minimum, maximum and default.",
  ["configurations", "histories"], "every flag combination and rate, after every history of initializations",
  "tests try single combinations in a fresh process",
  [B, T], [("flag checks and normalisation", B), ("forced-timer switch", T)], [("forced internal timer", "process-wide switch", T)], ["granted or refused", "status document"]),
P("P16", "The failure callback reports every alarm while it can still matter",
  "If a failure callback was registered before the first initialization, then in FIPS and NTG.1 mode each alarm, including those in start-up tests, start-up stages and recoveries, is reported to it with exactly the alarms present, before the affected call returns; without an alarm, or outside those modes, it is not called. The callback may run self tests and query status.",
  ["inputs", "histories"], "every alarm in every phase of every call",
  "tests trigger one alarm in one phase",
  [H, B], [("callback from the verdict function", H)], [("registered callback", "process-wide", H)], ["callback invocations and masks"]),
P("P17", "Status and accounting tell the truth",
  "At any moment the status document is valid JSON whenever success is reported, fits the given buffer, and its identity, health, configuration and environment entries describe the instance as it is. Invocations, bytes and bits count exactly the completed requests over the instance's lifetime including recoveries, failed requests count nothing, and reinitializations count the recoveries.",
  ["histories", "configurations", "inputs"], "every history of reads, failures and recoveries, every buffer size",
  "tests compare a few documents for fresh instances",
  [ST, B], [("document writer", ST), ("counters", B)], [("counters", "lifetime accounting", "struct rand_data")], ["status document"]),
P("P18", "Identifiers are well formed, stable, and honest under failing random sources",
  "Each instance carries a version-4 identifier built from 16 bytes of operating-system randomness, retrying interrupted or short reads and falling back to the second source when the first is unavailable, and the all-zero identifier if and only if no source delivers. It never changes over the instance's life, including recoveries, is returned only into a large enough buffer, and no descriptor is left open.",
  ["fault_sequences", "histories"], "every sequence of interruptions, short reads and errors of the random sources",
  "tests run on a working random source",
  [U, AR, B], [("identifier generation", U), ("random source with fallback", AR)], [("uuid", "identity", "struct rand_data")], ["identifier and status calls", "simulated random sources"]),
P("P19", "Host properties are discovered correctly or conservatively defaulted",
  "CPU count, cache sizes and the system's FIPS mode are reported and used correctly for every host configuration, including interrupted reads, missing or unreadable files, sparse and very large CPU sets and heterogeneous caches; what cannot be determined falls back to the documented default. The kernel build counts the online CPUs and takes the largest cache of each level over all of them from CPUID or the arm64 cache registers, a bare-metal build those of its one CPU. An enabled system FIPS mode always puts new instances into FIPS mode, and a working set not chosen by the caller follows the discovered cache.",
  ["configurations", "fault_sequences"], "every host configuration and I/O failure during discovery",
  "tests see the one machine they run on",
  [AN, AC, AF, B], [("discovery back ends", AC), ("FIPS mode", AF)], [], ["status document", "refused or granted allocations"]),
P("P20", "Every timed sample covers the full configured noise-source work",
  "Whenever the memory-access noise source is enabled, every timing sample spans the complete round of memory accesses configured for it: no time stamp is taken before the accesses are done, each delivered block rests on at least 128 accesses per sample, and the separate memory and hash stages of an NTG.1 start-up time three times the normal work. The accesses reach the whole memory set aside for them, whatever the clock, the size of the memory, the timer in use, and also in start-up tests and after a recovery.",
  ["inputs", "configurations", "histories"], "every clock, memory size, mode and history; hardware clock and internal timer",
  "skipped or shortened work leaves return values, output and health state of any mocked run unchanged; tests cannot see memory accesses",
  [N, B], [("memory access and hash loops", N), ("measurement functions", N)], [("memory block", "target of the accesses", "struct rand_data")], ["memory accesses between time stamps", "time stamps"]),
P("P21", "Time stamps are complete, fresh readings of the machine's clock",
  "Every time stamp the library works with is one fresh reading of the platform's counter, with all its 64 bits: the CPU's cycle counter where there is one, otherwise the monotonic clock in nanoseconds (in the kernel the cycle counter of the architecture, or the monotonic clock if it reads zero). No bits are lost or added, no reading is reused, corrected or invented, at whatever value the counter stands, whether it jumps, runs backwards or wraps around. A clock that cannot be read counts as zero and is thereby refused by the start-up tests. The build as shipped takes its time from nowhere else.",
  ["inputs", "configurations", "fault_sequences"], "every counter value and time series, counter and fall-back clock, user space and kernel back end",
  "the tests replace the time stamp or see only the counter values of the machine they run on",
  [ATI, T], [("counter and fall-back clock", ATI), ("choice between clock and internal timer", T)], [], ["time stamps delivered to the noise source, through verdicts, codes and output bytes compared with the model"]),
P("P22", "libgcrypt, OpenSSL, AWS-LC and bare-metal builds keep the memory guarantees",
  "Built against libgcrypt or OpenSSL, state memory comes from the library's secure arena whenever the application created one and it has room. If it has none or runs out, the request falls back to ordinary memory, or, where secure memory is requested or implied by FIPS or NTG.1 flags, the initialization, allocation or recovery fails instead; the process is never ended. AWS-LC memory is never reported as secure; a bare-metal build, which has no other memory, accepts every request its heap can serve. On every path each block is zeroed when obtained, wiped when released unless the crypto library does so itself, and released exactly once by a function that may release it. The system's FIPS mode is the one the crypto library reports (bare metal: none).",
  ["fault_sequences", "configurations", "histories"], "arena present, absent or used up at any request, the ordinary heap refusing at any request, in initialization, allocation and recovery",
  "the test suite is built without any crypto library, so none of this code is even compiled by it",
  [AM, AF, B, ST], [("allocation and release per back end", AM), ("FIPS indicator per back end", AF)], [("secure arena of the process", "created or not, room left", AM)], ["blocks obtained from and returned to the simulated crypto library, with their content; results of init, alloc and read; status document"]),
P("P23", "The library never steps outside its memory and never crashes",
  "Whatever the arguments, host, clock, faults and history, the library never reads or writes outside the objects it owns or was given - buffers, tables, working memory, texts read from the host - never uses memory after its release or a value that was never set, never divides by zero or shifts out of range, and never crashes.",
  ["inputs", "configurations", "fault_sequences", "histories"], "every argument, rate, flag, host text, failure and history of operations",
  "an access one step too far goes unnoticed in a normal build and needs an extreme rate, buffer size or host text that the tests do not contain",
  [B, H, N, ST, U, AC, AN, AF, AM, T], [("cutoff tables indexed by rate", H), ("host texts read into fixed buffers", AC), ("status text in the caller's buffer", ST)], [], ["out-of-range accesses, uses of unset values and crashes seen by compiler instrumentation inside simulated runs"]),
P("K01", "Kernel device: a read returns exactly the bytes generated for it, or an error",
  "A read from the kernel character device returns the number of bytes handed to the caller; they are the output generated for this very call, in order, each byte delivered once, and nothing beyond them is written. A blocking read is complete unless something failed; a signal, copy fault, failed allocation or generator failure in the middle ends it with the bytes delivered so far, and an error is returned only if nothing was delivered, with the code that fits the cause. A pending signal stops generation within one block. A non-blocking read never sleeps on a busy instance and returns at most 256 bytes.",
  ["schedules", "fault_sequences", "inputs"], "every request size and mode, signals, copy faults and failures at every point, contention from other threads",
  "the kernel module is not even compiled by the test suite",
  [K("chardev")], [("chunked read loop under the instance lock", K("chardev"))], [("per-open context", "collector, lock, self test", K("chardev"))], ["return values, user buffer, lock ledger of the simulated kernel"]),
P("K02", "Kernel: a generator is never used by two callers at once or after its release",
  "However device reads, status and field queries, self-test requests, the periodic self test, the hardware-RNG and crypto front ends, opens, closes and module load and unload interleave, each generator is used by at most one of them at a time, only on behalf of the object it was created for, and never after it was replaced or released. Long reads let other users of the instance in at least every 1024 bytes. There is no deadlock, no lock is left held, and every caller finishes.",
  ["schedules"], "every interleaving of the front ends, including release racing the periodic self test and recovery replacing the generator",
  "the kernel module is not even compiled by the test suite",
  [K("chardev"), K("hwrng"), K("kcapi"), K("selftest"), K("proc")], [("per-instance locking", K("chardev")), ("cancel of delayed work before free", K("selftest"))], [], ["calls into the generator, locks and memory observed by the simulated kernel"]),
P("K03", "Kernel module load, open and unload are all-or-nothing",
  "If any step of loading the module, opening the device or the raw-noise file, or creating a crypto instance fails, everything done before is undone and the failure is reported; if all succeed, all interfaces are there. No instance exists before the start-up test has passed with the configured parameters, and its failure refuses the load. After unloading (possible only when unused), nothing registered, published, allocated or scheduled by the module remains, no caller is left inside it, and closing an object releases all it held.",
  ["fault_sequences", "configurations", "schedules"], "failure of every allocation and registration at every step, every module parameter, users arriving while the module loads or unloads",
  "the kernel module is not even compiled by the test suite",
  [K("mod"), K("chardev"), K("hwrng"), K("kcapi"), K("proc"), K("testing"), K("selftest")], [("unwinding in reverse order", K("mod"))], [], ["registration, allocation and work ledger of the simulated kernel"]),
P("K04", "Kernel self tests: run when due, fail for good, and are counted",
  "With an interval configured (at most 30 days), every generating instance is self-tested each interval as long as it lives; with none configured no periodic test runs. Once a test of an instance fails, its data requests fail for good, it is not tested again, and other instances go on. An on-demand test needs privilege, reports the verdict of its own run, and fails without a new run once the instance has failed. The statistics count every run and every failure.",
  ["schedules", "fault_sequences", "histories"], "corruption appearing at any time, every interleaving of timer, reads and on-demand tests, clock advances",
  "the kernel module is not even compiled by the test suite",
  [K("selftest"), K("ioctl"), K("chardev"), K("hwrng"), K("kcapi")], [("delayed work under the instance lock", K("selftest"))], [("failed mark, statistics", "per instance and module-wide", K("selftest"))], ["return values", "ioctl and proc output"]),
P("K05", "Kernel raw-noise interface: closed under lockdown, and its samples are exact",
  "The raw-noise file is not created, and cannot be opened, on a locked-down kernel; it is readable by root only. A read delivers whole samples, in order, each the noise source's delta measured from a time stamp taken immediately before, and rejects other sizes. It reports exactly what was copied and moves the position by that; a signal or copy fault ends it early. The source, oversampling and loop count are those configured for the open file; a loop count above 32 bits is refused and each file has its own. Measurements of different readers never overlap.",
  ["schedules", "fault_sequences", "inputs", "configurations"], "lockdown starting at any time, every size, fault and interleaving",
  "the kernel module is not even compiled by the test suite",
  [K("testing")], [("lockdown check, size check, sampling loop", K("testing"))], [("loop count", "per open file", K("testing"))], ["return values and user buffer", "measurement calls"]),
P("K06", "Kernel hwrng and crypto front ends never present failure as data",
  "The hardware-RNG and crypto front ends hand out only output generated for that very request, never write beyond the buffer, and map every generator failure to the documented negative code: the crypto front end fills the whole request or fails; the hardware RNG reports the bytes it delivered, 0 only if it may not wait and the generator is busy, and then it does not sleep. Instances use the configured parameters and each crypto instance has its own generator. The declared quality is the configured one, at most 1024.",
  ["fault_sequences", "schedules", "inputs", "configurations"], "every failure of the generator at every point, every size, concurrent users",
  "the kernel module is not even compiled by the test suite",
  [K("hwrng"), K("kcapi")], [("error mapping", "linux_kernel/jitterentropy_error.h")], [], ["return values and buffers"]),
P("K07", "Kernel ioctls and proc files tell the truth",
  "The status ioctl delivers the instance's document and its length if the caller's buffer is large enough, and otherwise only the needed length and -EOVERFLOW, never writing past the given length; the field ioctls return values the instance really had, invocation and byte counters as one consistent pair, and the identifier its proc file is published under; unknown requests are refused. Proc files show the version, the effective oversampling, flags and FIPS/NTG.1 modes, the open instances and opens, and the document of the instance. Whatever cannot be produced or delivered is reported as an error.",
  ["schedules", "fault_sequences", "inputs", "configurations"], "every request, buffer length, parameter combination, failure and concurrent use",
  "the kernel module is not even compiled by the test suite",
  [K("ioctl"), K("proc"), K("chardev"), K("hwrng"), "linux_kernel/jitterentropy_uapi.h"], [("field retrieval under the instance lock", K("ioctl")), ("statistics and configuration files", K("proc"))], [], ["ioctl results and proc contents"]),
P("K08", "Kernel: permanent failures stop the machine in FIPS mode, and nothing else does",
  "In system FIPS mode, a failed start-up test, a permanent health-test failure or failed-self-test code met by any data path (device, hardware RNG, crypto), and a failed self test - periodic, on demand, bound or not - stop the machine before the call returns. An intermittent failure never does, and outside FIPS mode nothing does.",
  ["fault_sequences", "schedules", "configurations"], "every failure code on every front end at every point",
  "the kernel module is not even compiled by the test suite",
  ["linux_kernel/jitterentropy_error.h", K("mod"), K("selftest"), K("chardev"), K("hwrng"), K("kcapi")], [("permanent-failure mapping", "linux_kernel/jitterentropy_error.h")], [], ["panic in the simulated kernel"]),
P("K09", "Kernel: no generated data or generator state survives in released memory",
  "Every kernel buffer that held generator output or raw samples, and all generator state, is overwritten before the memory is given back, on every path: complete and partial reads, faults, signals, generator failures, recovery replacing the generator, close and unload. All of it is given back exactly once.",
  ["fault_sequences", "schedules"], "every way a read, open, close or unload can end",
  "the kernel module is not even compiled by the test suite",
  [K("chardev"), K("testing"), K("hwrng"), "arch/jitterentropy-arch-memory.c"], [("wiping release of the bounce buffer", K("chardev"))], [], ["contents of memory when it is released to the simulated allocator"]),
]

def main():
    here = os.path.dirname(os.path.abspath(__file__))
    txt = [t for t in TEXT if t["id"] in PROPS or t.get("na")]
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for t in txt:
            assert len(t["title"]) <= 80, t["id"]
            f.write(json.dumps(t) + "\n")
    commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    hooks = [c.split()[0] for c in commits if c.split(" ", 1)[1].startswith("hook")]
    m = {"version": 1, "setup_cmd": "python3 check.py --build",
         "checks": [], "not_applicable": [],
         "notes": "Every check rebuilds its simulator from /repo's working tree into the git-ignored build/ folder. Replay a violation with: python3 check.py --replay <file>."}
    m["hooks"] = {"guard": "JENT_CONF_ENABLE_MOCK_TIMER", "enable": "the simulators compile /repo's sources with this define, an option the repository already has (off by default); operating-system and kernel services are replaced at link time (ld --wrap) or by stand-in headers, so no hook was added to /repo", "source_commits": hooks}
    for t in txt:
        p = PROPS[t["id"]]
        engs = sorted({e for e, _, _ in p["mix"]})
        tech = {"seq": "seeded lockstep simulation against a reference model (simulated clock and OS, fault injection)",
                "seqm": "the same, built as on a system without glibc extensions",
                "seqn": "the same, built without the internal timer",
                "seqs": "the same, built without the mock, the counter instruction answered by the simulator",
                "seqg": "the same, built as for an architecture without a counter instruction, the clock call answered by the simulator",
                "seqks": "the same with the kernel's counter back end", "seqkg": "the same with the kernel's fall-back clock back end",
                "seqx": "the same, with address and undefined-behaviour instrumentation", "sequ": "the same, with instrumentation for values never set",
                "seqhg": "the same, built for libgcrypt on a simulated secure arena", "seqho": "the same, built for OpenSSL on a simulated secure heap", "seqha": "the same, built for AWS-LC on a simulated heap",
                "seqhb": "the same, built for bare metal on a simulated heap and CPUID", "seqkh": "the same with the kernel's host back ends on simulated x86 CPUs", "seqka": "the same with the kernel's host back ends on simulated arm64 CPUs",
                "con": "seeded deterministic scheduling of the real threads at every shared memory access, with fault injection",
                "ker": "seeded simulation of the kernel module on a simulated kernel, with fault injection"}
        m["checks"].append({"property": t["id"], "quick_cmd": "python3 check.py %s" % t["id"], "thorough_cmd": "python3 check.py %s thorough" % t["id"],
                            "technique": "deterministic simulation with fault injection: " + "; ".join(tech[e] for e in engs),
                            "level": p["level"],
                            "level_note": p.get("note", "Held on every simulated run of the given seeds; each run is exactly repeatable from its seed. Trusts the simulator, the reference model and the compiler; search is by sampling, so absence of violations is evidence, not proof.")})
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()

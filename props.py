"""Which simulator profiles and which kinds of divergence decide each property."""

SEQ_COMP = {
    "real": ["src/*.c and arch/*.c of the working tree (library core, health tests, conditioning, status, identifier, memory/CPU/cache/FIPS/random back ends)"],
    "simulated": ["high-resolution clock (seeded, adversarially steered)", "mmap/mprotect/madvise/mlock/munmap", "open/read/close on /dev/urandom, /proc and /sys", "getrandom", "sched_getaffinity/sysconf", "bit flips in the conditioning constants"],
    "model": ["usim/model.c + usim/keccak.c: independent reference of start-up tests, health tests, sampling, conditioning, recovery and accounting"],
    "stub": ["counting thread: the host never provides it in this engine"],
}
SHIP_COMP = dict(SEQ_COMP)
SHIP_COMP["real"] = SEQ_COMP["real"] + ["the time-stamp back end, built without the mock"]
SHIP_COMP["simulated"] = SEQ_COMP["simulated"] + ["what the counter instruction, clock_gettime(), or the kernel's cycle counter and monotonic clock answer"]
HEAP_COMP = dict(SEQ_COMP)
HEAP_COMP["real"] = SEQ_COMP["real"] + ["the memory and FIPS back ends for libgcrypt, OpenSSL, AWS-LC and bare metal"]
KHOST_COMP = dict(SEQ_COMP)
KHOST_COMP["real"] = SEQ_COMP["real"] + ["the kernel's back ends for CPU count, caches, FIPS mode and randomness, compiled with -DLINUX_KERNEL"]
KHOST_COMP["simulated"] = SEQ_COMP["simulated"] + ["online CPUs, cross-CPU calls, CPUID answers or arm64 cache registers per CPU, fips_enabled, get_random_bytes()"]
HEAP_COMP["stub"] = SEQ_COMP["stub"] + ["libgcrypt, OpenSSL and AWS-LC themselves: heap, secure arena and FIPS indicator follow their documentation (usim/heap.c)"]
CON_COMP = {
    "real": ["src/*.c and arch/*.c of the working tree, compiled with memory-access instrumentation, including the internal timer's counting thread code"],
    "simulated": ["threads (coroutines switched by a seeded scheduler at memory accesses, atomics, yields, thread creation and join)", "per-thread clocks", "thread creation/attributes/affinity and their failures", "memory, file and random services as in the sequential engine"],
    "model": ["the same thread's calls run alone (for comparison)", "vector-clock ordering check on process-wide data", "ledgers of threads and OS resources"],
    "stub": ["weak memory: execution is sequentially consistent; missing ordering is found by the vector clocks instead"],
}
KER_COMP = {
    "real": ["linux_kernel/*.c of the working tree with memory-access instrumentation (device, raw-noise, hwrng, crypto, proc, self-test and load/unload code)", "src/*.c and arch/*.c built for the kernel, in the kreal profile"],
    "simulated": ["kernel threads, mutexes, delayed work and clock (coroutines under a seeded scheduler, switched at memory accesses and kernel calls)", "allocator with guard pages and poisoning, copy_to/from_user, signals, proc, debugfs, misc device, hwrng and crypto cores, lockdown, capabilities, module loader"],
    "model": ["per-call oracles in ksim/kops.c, ledgers of generators, registrations, allocations, locks and works"],
    "stub": ["generator core in all profiles but kreal: recognisable output, injected failures and recoveries"],
}
ENGINES = {
    "ker": {"build": "ksim/build.sh", "exe": "ksim", "components": KER_COMP, "record": True},
    "con": {"build": "csim/build.sh", "exe": "csim", "components": CON_COMP, "record": True},
    "seq": {"build": "usim/build.sh", "exe": "usim", "components": SEQ_COMP},
    "seqm": {"build": "usim/build.sh", "exe": "usim", "components": SEQ_COMP, "args": ["nonglibc"], "optional": True},
    "seqn": {"build": "usim/build.sh", "exe": "usim", "components": SEQ_COMP, "args": ["noint"], "optional": True},
    "seqhg": {"build": "usim/build.sh", "exe": "usim", "components": HEAP_COMP, "args": ["gcrypt"]},
    "seqho": {"build": "usim/build.sh", "exe": "usim", "components": HEAP_COMP, "args": ["openssl"]},
    "seqha": {"build": "usim/build.sh", "exe": "usim", "components": HEAP_COMP, "args": ["awslc"], "optional": True},
    "seqhb": {"build": "usim/build.sh", "exe": "usim", "components": HEAP_COMP, "args": ["bare"], "optional": True},
    "seqkh": {"build": "usim/build.sh", "exe": "usim", "components": KHOST_COMP, "args": ["khost"], "optional": True},
    "seqka": {"build": "usim/build.sh", "exe": "usim", "components": KHOST_COMP, "args": ["khosta"], "optional": True},
    "seqx": {"build": "usim/build.sh", "exe": "usim", "components": SEQ_COMP, "args": ["asan"]},
    "sequ": {"build": "usim/build.sh", "exe": "usim", "components": SEQ_COMP, "args": ["msan"], "optional": True},
    "seqs": {"build": "usim/build.sh", "exe": "usim", "components": SHIP_COMP, "args": ["ship"]},
    "seqg": {"build": "usim/build.sh", "exe": "usim", "components": SHIP_COMP, "args": ["nocounter"], "optional": True},
    "seqks": {"build": "usim/build.sh", "exe": "usim", "components": SHIP_COMP, "args": ["kship"], "optional": True},
    "seqkg": {"build": "usim/build.sh", "exe": "usim", "components": SHIP_COMP, "args": ["knocounter"], "optional": True},
}

ASSUME = [
    "the library is compiled by gcc for x86-64 Linux/glibc with the repository's own test hooks for the time source enabled (JENT_CONF_ENABLE_MOCK_TIMER, an existing option that is off in shipped builds)",
    "sampling of plans by seed, not exhaustive: a violation needing a combination outside the explored runs is not excluded",
]

CH = {"crash", "hang", "nonterm"}
CON = CH | {"deadlock"}
TIM = {"more-samples", "fewer-samples", "start-timing"}
RET = {"missed-alarm", "missed-perm", "false-error", "wrong-code"}
INI = {"init-passed", "init-refused", "init-code", "init-timing"}
ALO = {"alloc-refused", "alloc-granted", "gate-bypass"}
SELF = {"selftest-lost", "selftest-code", "selftest-verdict"}
STA = {"status-invalid", "status-overflow", "status-ret", "status-field", "status-health", "account"}
LEAK = {"leak-mem", "leak-fd", "double-free", "bad-release", "bad-fd"}

R = "plans are drawn from the seed: host configuration, operations, clock steering segments and faults; a run is non-trivial when it passes through at least two distinct abstract instance states"

PROPS = {
    "P01": {"mix": [("seq", "health", 3), ("seq", "cutoff", 1), ("seq", "story", 2), ("seq", "recover", 1), ("con", "timer", 1)],
            "cats": RET | TIM | ALO | {"resurrected", "leak-on-fail", "status-health", "output", "cb-missed", "cb-wrong"} | CH},
    "P02": {"mix": [("seq", "health", 2), ("seq", "cutoff", 2), ("seq", "laglong", 2), ("seq", "story", 1), ("seq", "init", 1)],
            "cats": RET | TIM | INI | ALO | {"status-health", "cb-missed", "cb-wrong", "output"} | CH},
    "P03": {"mix": [("seq", "samples", 6), ("seq", "health", 1), ("seq", "mixed", 1)],
            "cats": TIM | {"output", "init-timing"} | CH},
    "P04": {"mix": [("seq", "output", 6), ("seq", "recover", 1), ("seq", "samples", 1)],
            "cats": {"output", "repeat", "overflow", "more-samples", "fewer-samples", "false-error"} | CH},
    "P05": {"mix": [("seq", "recover", 5), ("seq", "story", 2), ("seq", "mixed", 1)],
            "cats": RET | TIM | ALO | INI | SELF | STA | {"output", "repeat", "resurrected", "leak-on-fail", "uuid", "cb-missed", "cb-wrong", "unlocked", "leak-mem"} | CH},
    "P06": {"mix": [("seq", "init", 7), ("seq", "host", 1)],
            "cats": INI | ALO | {"start-timing"} | CH},
    "P07": {"mix": [("seq", "init", 3), ("seq", "alloc", 1), ("seq", "selftest", 1), ("con", "gate", 3)],
            "cats": ALO | {"init-passed", "init-timing", "start-timing"} | CH},
    "P08": {"mix": [("seq", "alloc", 5), ("seq", "mixed", 1), ("con", "timerfault", 2)],
            "cats": LEAK | {"handler", "crash", "thread-leak", "join-bad", "create-unreported"}},
    "P09": {"mix": [("seq", "alloc", 4), ("seq", "mixed", 3), ("con", "timerfault", 1)],
            "cats": {"unwiped", "guard", "nodump", "bad-release", "overflow", "leak-mem"} | CH},
    "P10": {"mix": [("seq", "secmem", 6), ("con", "timersec", 2)],
            "cats": {"unlocked", "status-field", "init-passed", "init-refused", "init-code", "init-timing", "start-timing"} | ALO | CH},
    "P11": {"mix": [("seq", "selftest", 5), ("con", "self", 3)],
            "cats": SELF | {"data-race"} | {"gate-bypass", "init-passed", "init-code", "init-timing", "alloc-granted", "start-timing"} | CH},
    "P12": {"mix": [("con", "race", 3), ("con", "gate", 2), ("con", "indep", 1), ("con", "timer", 2)],
            "cats": CON | {"divisor", "data-race", "cfg-window", "status-field", "interference", "init-refused", "init-passed", "alloc-refused", "alloc-granted", "gate-bypass", "false-error", "status-invalid", "leak-mem", "leak-fd", "double-free", "bad-release"}},
    "P13": {"mix": [("con", "indep", 5), ("con", "race", 2), ("con", "self", 1)],
            "cats": CON | {"interference", "divisor", "data-race", "overflow", "uuid", "status-invalid", "false-error", "alloc-refused", "double-free", "bad-release"}},
    "P14": {"mix": [("con", "timer", 4), ("con", "timerfault", 4)],
            "cats": CON | {"handler", "int-onecpu", "int-used", "selftest-lost", "selftest-code", "overflow", "cfg-window", "alloc-granted", "gate-bypass", "thread-leak", "join-bad", "create-unreported", "int-unused", "pin", "init-refused", "alloc-refused", "false-error", "leak-mem", "double-free", "bad-release"}},
    "P15": {"mix": [("seq", "config", 5), ("seqn", "config", 1), ("con", "timer", 2)],
            "cats": ALO | {"int-used", "int-unused", "pin", "int-onecpu"} | {"init-passed", "init-refused", "init-code", "init-timing", "start-timing", "status-field", "cfg-window"} | CH},
    "P16": {"mix": [("seq", "cb", 5), ("seq", "story", 2), ("con", "timer", 1)],
            "cats": {"cb-missed", "cb-wrong", "cb-null", "cfg-window"} | CH},
    "P17": {"mix": [("seq", "status", 7), ("con", "timer", 1)],
            "cats": STA | {"overflow", "uuid"} | CH},
    "P18": {"mix": [("seq", "uuid", 7), ("seqkh", "uuid", 1)],
            "cats": {"uuid", "overflow", "leak-fd", "bad-fd"} | CH},
    "P19": {"mix": [("seq", "host", 4), ("seqm", "host", 1), ("seqka", "host", 1), ("seqkh", "host", 1), ("seqhb", "host", 1)],
            "cats": {"status-field", "leak-fd", "bad-fd", "start-timing"} | ALO | INI | CH},
}
PROPS["P23"] = {"mix": [("seqx", "mixed", 1), ("seqx", "host", 1), ("seqx", "status", 1), ("seqx", "story", 1), ("seqx", "uuid", 1), ("sequ", "mixed", 1), ("sequ", "host", 1), ("sequ", "alloc", 1)],
                "cats": {"overflow", "crash", "double-free", "bad-release", "use-after-free"} | CH,
                "assume": ["outside state memory, out-of-range accesses are those the compiler's address and undefined-behaviour instrumentation sees; values never set, those its memory instrumentation sees"]}
PROPS["P21"] = {"mix": [("seqs", "stamp", 3), ("seqg", "stamp", 2), ("seqks", "stamp", 1), ("seqkg", "stamp", 2)],
                "cats": RET | TIM | INI | ALO | {"output", "repeat"} | CH,
                "assume": ["the library is compiled without the mock here; the instruction rdtsc in its assembly text is replaced by a call into the simulator"]}
PROPS["P22"] = {"mix": [("seqhg", "heap", 3), ("seqho", "heap", 3), ("seqha", "heap", 1), ("seqhb", "heap", 1)],
                "cats": LEAK | ALO | INI | RET | TIM | {"unwiped", "unlocked", "overflow", "status-field", "output", "start-timing"} | CH,
                "assume": ["libgcrypt, OpenSSL and AWS-LC are not installed here: their allocators and FIPS indicators are stand-ins written from their documented behaviour"]}
PROPS["P20"] = {"mix": [("con", "work", 7), ("con", "timer", 1)], "cats": {"work", "work-spread", "nonterm", "crash"},
                "rule": R + "; memory accesses of the library are counted between time stamps"}
KCR = {"crash", "hang", "deadlock", "use-after-free", "double-free", "overflow", "bad-lock", "kernel-warning"}
PROPS.update({
    "K01": {"mix": [("ker", "kread", 6), ("ker", "kconc", 1), ("ker", "kreal", 1)],
            "cats": KCR | {"read-count", "read-data", "read-short", "read-lost", "errno", "nonblock", "uninterruptible", "read-retry", "wrong-instance", "concurrent-use", "open", "params"}},
    "K02": {"mix": [("ker", "kconc", 2), ("ker", "kraw", 1), ("ker", "kself", 1), ("ker", "kfront", 1), ("ker", "kload", 1), ("ker", "kreal", 1), ("ker", "kstat", 1)],
            "cats": KCR | {"concurrent-use", "wrong-instance", "monopoly", "module-gone", "measure-overlap", "nonblock", "ungated", "left-over"}},
    "K03": {"mix": [("ker", "kload", 7), ("ker", "kread", 1)],
            "cats": KCR | {"load", "open-count", "module-gone", "left-over", "reg-twice", "proc-dup", "bad-unreg", "ungated", "errno", "open", "proc-missing", "param-missing", "params", "no-panic", "false-panic"}},
    "K04": {"mix": [("ker", "kself", 7), ("ker", "kreal", 1)],
            "cats": KCR | {"self-verdict", "self-retest", "self-unasked", "self-missed", "selftest-cap", "no-panic", "false-panic", "proc", "concurrent-use", "wrong-instance", "left-over", "errno", "ioctl"}},
    "K05": {"mix": [("ker", "kraw", 7), ("ker", "kload", 1)],
            "cats": KCR | {"raw-open", "raw-size", "raw-data", "raw-loop", "raw-pos", "read-count", "read-short", "read-lost", "errno", "measure-overlap", "measure-kind", "params", "open", "left-over", "concurrent-use", "ioctl", "wrong-instance", "unwiped"}},
    "K06": {"mix": [("ker", "kfront", 7), ("ker", "kreal", 1)],
            "cats": KCR | {"front-fail", "read-count", "read-data", "errno", "nonblock", "quality", "concurrent-use", "wrong-instance", "left-over", "open", "params"}},
    "K07": {"mix": [("ker", "kstat", 5), ("ker", "kconc", 1), ("ker", "kraw", 1), ("ker", "kreal", 1)],
            "cats": KCR | {"ioctl", "proc", "open-count", "proc-missing", "proc-dup", "proc-mode", "errno", "params", "concurrent-use", "wrong-instance", "selftest-cap"}},
    "K08": {"mix": [("ker", "kread", 3), ("ker", "kfront", 2), ("ker", "kself", 2), ("ker", "kload", 1)],
            "cats": KCR | {"no-panic", "false-panic"}},
    "K09": {"mix": [("ker", "kreal", 3), ("ker", "kread", 2), ("ker", "kraw", 2), ("ker", "kfront", 1)],
            "cats": KCR | {"unwiped", "left-over"}},
})
for k, v in PROPS.items():
    v["id"] = k
    v.setdefault("level", "exploration")
    v.setdefault("rule", R)

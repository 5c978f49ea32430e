#!/usr/bin/env python3
"""check.py ID [quick|thorough] | --replay FILE | --build ENGINE...

Decides one property by seeded search over simulated executions of the code in
/repo's working tree.  Exit 0: held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>".  Exit 2: the machinery could not give
an answer (e.g. /repo does not build)."""
import json, os, re, subprocess, sys, threading, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
from props import PROPS, ENGINES, ASSUME  # noqa: E402


def build(engines):
    """Builds the engines; returns those that are there (further build variants may be missing, the main ones not)."""
    os.makedirs(BUILD, exist_ok=True)
    have = []
    for e in engines:
        eng = ENGINES[e]
        out = os.path.join(BUILD, e)
        shutil.rmtree(out, ignore_errors=True)
        r = subprocess.run(["bash", os.path.join(HERE, eng["build"]), REPO, out] + eng.get("args", []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        exe = os.path.join(out, eng["exe"])
        if r.returncode or not os.path.exists(exe):
            sys.stderr.write(r.stdout[-4000:])
            print("cannot build engine %s from %s" % (e, REPO))
            if not eng.get("optional"):
                sys.exit(2)
            continue
        have.append(e)
    return have


def exe(e):
    return os.path.join(BUILD, e, ENGINES[e]["exe"])


def gen(e, profile, seed):
    return subprocess.run([exe(e), "gen", profile, str(seed)], stdout=subprocess.PIPE, text=True).stdout


SCRATCH = os.path.join(BUILD, "scratch")


def run_plan(e, text, tag="r", trace=False, mode="run"):
    os.makedirs(SCRATCH, exist_ok=True)
    p = os.path.join(SCRATCH, "%s-%d-%d.plan" % (tag, os.getpid(), threading.get_ident()))
    with open(p, "w") as f:
        f.write(text)
    a = [exe(e), mode, p] + (["trace"] if trace else [])
    r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    os.unlink(p)
    cat = msg = None
    h = "0"
    for l in r.stdout.splitlines():
        if l.startswith("V "):
            q = l.split(" ", 2)
            cat, msg = q[1], q[2] if len(q) > 2 else ""
        elif l.startswith("H "):
            h = l[2:]
    return cat, msg, h, r


def minimise(e, text, cat, budget):
    """ddmin over the removable lines of the plan; keeps the same kind of violation."""
    t_end = time.time() + budget
    lines = [l for l in text.splitlines() if l.strip()]
    fixed = lambda l: l.startswith(("sim", "cfg", "sched"))

    def ok(ls):
        return run_plan(e, "\n".join(ls) + "\n", "m")[0] == cat

    n = 2
    tries = 0
    while time.time() < t_end:
        idx = [i for i, l in enumerate(lines) if not fixed(l)]
        if len(idx) < 2:
            break
        size = max(1, len(idx) // n)
        done = False
        for k in range(0, len(idx), size):
            if time.time() >= t_end:
                break
            drop = set(idx[k:k + size])
            cand = [l for i, l in enumerate(lines) if i not in drop]
            tries += 1
            if ok(cand):
                lines = cand
                n = max(n - 1, 2)
                done = True
                break
        if not done:
            if size == 1:
                break
            n = min(n * 2, len(idx))
    return "\n".join(lines) + "\n", tries


def known(prop, cat, msg):
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            kf = json.load(f)
    except FileNotFoundError:
        return None
    for k in kf.get("known", []):
        if k["property"] == prop and k["category"] == cat and re.search(k["match"], msg or ""):
            return k
    return None


class Search:
    def __init__(self, prop, jobs, seconds, seed):
        self.prop, self.jobs, self.seconds, self.seed = prop, jobs, seconds, seed
        self.viol = []
        self.other = {}
        self.stats = {}
        self.states, self.sigs = {}, set()
        self.runs = self.det = self.nondet = 0
        self.procs = []
        self.per = {}
        self.lock = threading.Lock()
        self.stop = False

    def worker(self, w, e, profile, share_idx, share_n):
        a = [exe(e), "batch", profile, str(self.seed * 1000003 + 17 + share_idx), str(share_n), "100000000", str(self.seconds), "60"]
        pr = subprocess.Popen(a, stdout=subprocess.PIPE, text=True, errors="replace")
        with self.lock:
            self.procs.append(pr)
        for l in pr.stdout:
            q = l.rstrip("\n").split(" ", 3)
            with self.lock:
                if q[0] == "VIOL":
                    cat, msg = q[2], q[3] if len(q) > 3 else ""
                    if cat in self.prop["cats"]:
                        k = known(self.prop["id"], cat, msg)
                        if not k:
                            self.viol.append((e, profile, int(q[1]), cat, msg))
                            self.stop = True
                    else:
                        self.other[cat] = self.other.get(cat, 0) + 1
                elif q[0] == "NONDET":
                    self.nondet += 1
                elif q[0] == "DONE":
                    d = dict(x.split("=") for x in l.split()[1:])
                    self.runs += int(d["runs"])
                    self.det += int(d["det"])
                    k = "%s/%s" % (e, profile)
                    self.per[k] = self.per.get(k, 0) + int(d["runs"])
                elif q[0] == "S":
                    self.stats[q[1]] = self.stats.get(q[1], 0) + int(q[2])
                elif q[0] == "A":
                    self.states.setdefault(q[1], "%s/%s" % (e, profile))
                elif q[0] == "G":
                    self.sigs.add(q[1])
            if self.stop:
                break
        if self.stop:
            for p in list(self.procs):
                try:
                    p.kill()
                except OSError:
                    pass
        pr.wait()

    def go(self):
        th = []
        for i, (e, profile, si, sn) in enumerate(self.jobs):
            t = threading.Thread(target=self.worker, args=(i, e, profile, si, sn))
            t.start()
            th.append(t)
        for t in th:
            t.join()


def plan_jobs(mix, ncpu):
    tot = sum(w for _, _, w in mix)
    jobs = []
    alloc = []
    for e, p, w in mix:
        alloc.append([e, p, max(1, round(ncpu * w / tot))])
    for e, p, k in alloc:
        for i in range(k):
            jobs.append((e, p, i, k))
    return jobs


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--build":
        build(sys.argv[2:] or list(ENGINES))
        return 0
    if sys.argv[1] == "--replay":
        text = open(sys.argv[2]).read()
        e = (re.search(r"^# property .*?, engine (\w+),", text, re.M) or re.search(r"^sim (\w+)", text, re.M)).group(1)
        if not build([e]):
            return 2
        cat, msg, h, r = run_plan(e, text, "p", trace=True)
        sys.stdout.write(r.stderr)
        print("history hash %s" % h)
        if cat:
            print("reproduced: %s: %s" % (cat, msg))
            return 1
        print("no violation")
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = PROPS[pid]
    t0 = time.time()
    engines = sorted({e for e, _, _ in prop["mix"]})
    engines = build(engines)
    ncpu = min(8, os.cpu_count() or 8)
    secs = float(os.environ.get("VERIF_SECONDS", prop.get("quick_s", 40) if tier == "quick" else 780))
    s = Search(prop, plan_jobs([m for m in prop["mix"] if m[0] in engines], ncpu), secs, seed)
    t1 = time.time()
    s.go()
    search_s = time.time() - t1
    rc = 0
    nviol = 0
    # known findings are replayed on every run so that they stay visible
    kf = []
    try:
        kf = json.load(open(os.path.join(HERE, "known_findings.json"))).get("known", [])
    except FileNotFoundError:
        pass
    for k in kf:
        if k["property"] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if s.viol:
        s.viol.sort(key=lambda v: v[2])
        for e, profile, vs, cat, msg in s.viol[:4]:
            text = gen(e, profile, vs)
            c1, m1, h1, _ = run_plan(e, text, "v1")
            c2, m2, h2, _ = run_plan(e, text, "v2")
            if c1 != cat or c2 != cat:
                print("seed %d: not reproducible (%s/%s, %s/%s): machinery error" % (vs, c1, c2, h1, h2))
                continue
            if h1 != h2:
                # unchanged code repeats to the bit (that is rechecked in every
                # search); code that uses memory it never filled need not
                print("seed %d: the same violation on every replay, in histories that differ: the code depends on data it never set" % vs)
            if ENGINES[e].get("record"):
                r = run_plan(e, text, "rec", mode="record")
                rec = r[3].stdout
                if rec.startswith("sim") and run_plan(e, rec, "rc")[0] == cat:
                    text = rec
            mini, tries = minimise(e, text, cat, 60 if tier == "quick" else 180)
            c3, m3, h3, _ = run_plan(e, mini, "v3")
            os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
            rp = os.path.join(BUILD, "replay", "%s-%d.plan" % (pid, vs))
            with open(rp, "w") as f:
                f.write(mini.rstrip("\n") + "\n# property %s, engine %s, seed %d of profile %s, %s: %s\n# history %s\n" % (pid, e, vs, profile, c3, m3, h3))
            print("%s: %s" % (c3, m3))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            nviol += 1
            rc = 1
            break
        else:
            print("no violation could be reproduced")
            rc = 2
    wall = time.time() - t0
    faults = {k[6:]: v for k, v in s.stats.items() if k.startswith("fault.")}
    events = {k: v for k, v in s.stats.items() if not k.startswith("fault.")}
    samples = []
    for e, p, i, n in s.jobs[:3]:
        samples.append({"engine": e, "profile": p, "seed": seed * 1000003 + 17 + i, "plan": gen(e, p, seed * 1000003 + 17 + i).splitlines()[:40]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop["level"],
        "coverage": {
            "evaluations": int(s.runs if rc == 0 else max(s.runs, 1)),
            "distinct_nontrivial": len(s.sigs),
            "rule": prop["rule"],
            "samples": samples,
            "runs_per_hour": int(s.runs / max(search_s, 0.1) * 3600),
            "seeds": {"base": seed * 1000003 + 17, "per_profile": s.per},
            "simulated_time_s": round(s.stats.get("simtime_ns", 0) / 1e9, 3),
            "faults_injected": faults, "events": events,
            "distinct_states": len(s.states),
            "distinct_measure": "distinct_states: hashes of the abstract state after each operation; distinct_nontrivial: hashes of a run's whole sequence of abstract states (and, in the concurrent engines, scheduling decisions)",
            "determinism_rechecks": s.det, "determinism_mismatches": s.nondet,
            "divergences_of_other_kinds": s.other,
            "components": {e: ENGINES[e]["components"] for e in engines},
        },
        "assumptions": ASSUME + prop.get("assume", []),
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0 and s.nondet:
        print("machinery error: %d run(s) not repeatable" % s.nondet)
        return 2
    if rc == 0 and s.runs == 0:
        print("machinery error: no run completed")
        return 2
    if rc == 0:
        print("%s: held on %d simulated runs (%d distinct states, %d distinct histories, %d fault injections) in %.0f s" % (pid, s.runs, len(s.states), len(s.sigs), sum(faults.values()), wall))
    shutil.rmtree(SCRATCH, ignore_errors=True)
    return rc


sys.exit(main())

#!/usr/bin/env python3
"""Runs the check of one property: check.py PROPERTY [quick|thorough]

Builds the simulator from /repo's working tree, replays the committed regression plans of the property, then runs its
seeded random simulations on all cores. Exit 0: the property held on everything explored. Exit 1: a VIOLATION line
names the replay file. Anything else is an error of the check.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SIM = os.path.join(BUILD, "sim.bin")
WORKERS = min(8, os.cpu_count() or 8)

# number of simulated runs: quick, thorough
RUNS = {
    "C01": (14000, 400000), "C02": (14000, 400000), "C03": (14000, 400000), "C04": (14000, 400000),
    "C05": (16000, 500000), "C06": (14000, 400000), "C07": (3500, 80000), "C08": (18000, 400000),
    "C09": (14000, 400000), "C10": (18000, 300000), "C11": (4000, 100000), "C12": (14000, 400000),
    "C17": (10000, 250000),
}
DEADLINE = {"quick": 330, "thorough": 3000}

RULE = {
    "C01": "one case is one generated writing session (configuration, node additions by every route, page moves, how the stream is made, how the storage splits transfers) followed by a full read back; non-trivial if at least one node was written; distinct by the hash of the run's complete event trace",
    "C02": "one case is one writing session with live configuration changes and overrides, judged by the metadata bytes and by a reader; all are non-trivial; distinct by the hash of the run's complete event trace",
    "C03": "one case is one COPC or LAZ file written under a splitting storage and parsed by an independent parser; non-trivial if it holds at least one node or chunk; distinct by trace hash",
    "C04": "one case is one LAZ writing session and repeated reads; non-trivial if at least one chunk was written; distinct by trace hash",
    "C05": "one case is one writing session with write, seek, flush, close, open or disk-full faults placed at recorded I/O events; non-trivial if a fault fired; distinct by trace hash",
    "C06": "one case is one reading session with read, seek or open faults placed at recorded I/O events and a recheck by the same reader after healing; non-trivial if a fault fired; distinct by trace hash",
    "C07": "one case is one writing session whose issued writes are cut at many points, torn ones included, each leftover being opened and read; non-trivial if points were written; distinct by trace hash; crash points are counted in fault_kinds",
    "C08": "one case is one damaged file opened and read completely by every reader call, some damaged again while open; all are non-trivial; distinct by trace hash",
    "C09": "one case is one random sequence of requests to one reader, some failing for lack of memory, each compared with the reference model; non-trivial if the file opened; distinct by trace hash",
    "C10": "one case is one random sequence of spatial and resolution queries compared with a reference evaluation; non-trivial if the file has nodes; distinct by trace hash",
    "C11": "one case is one set of tasks whose interleaving is decided instruction block by block from the seed and compared with the tasks run alone; non-trivial if tasks were really switched in mid-operation; distinct by trace hash",
    "C12": "one case is one writing session with refused operations, failing allocations and operations after close, compared with the accepted operations alone; non-trivial if anything was refused or failed; distinct by trace hash",
    "C17": "one case is one scenario (normal, damaged or absent file, failing I/O or allocations) repeated three times with handle and heap accounting; all are non-trivial; distinct by trace hash",
}
REAL = "all of cpp/src and cpp/include of the working tree (readers, writers, hierarchy, configuration, headers, VLRs, points, keys, boxes) compiled unchanged, libstdc++ streams and containers"
STUB = "laz-perf (not installed here): a stand-in with the same interface, container formats and stream behaviour but a simpler point coder; file system calls (simulated storage), operator new (simulated heap), thread scheduling (simulated scheduler)"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build():
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = sh(["make", "-j%d" % (os.cpu_count() or 8), "-C", os.path.join(HERE, "sim"), "REPO=" + REPO, "BUILD=" + BUILD])
    if r.returncode:
        print(r.stdout[-6000:])
        print("ERROR: the simulator does not build from " + REPO)
        sys.exit(2)


def known(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def is_known(k, cls, detail):
    return any(c == cls and re.search(p, detail) for c, p, _ in k)


def execute(plan):
    r = sh([SIM, "exec", plan])
    f = dict(re.findall(r"^(class|trace|detail) (.*)$", r.stdout, re.M))
    return r.returncode, f.get("class", ""), f.get("trace", ""), f.get("detail", "")


def confirm(prop, plan, name, limit):
    """Runs the plan twice in fresh processes, minimises it, and runs the result twice again."""
    a, b = execute(plan), execute(plan)
    if a[0] != 1 or a != b:
        return None, "a violation could not be repeated: %s / %s (%s)" % (a, b, plan)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    out = os.path.join(HERE, "replays", name)
    r = sh([SIM, "min", plan, "--time", str(limit), "--out", out])
    ok = r.returncode == 0 and os.path.exists(out)
    if ok:
        c, d = execute(out), execute(out)
        ok = c == d and c[0] == 1 and c[1] == a[1]
    if not ok:
        shutil.copy(plan, out)
        c = a
    return (out, c), None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop in ("C13", "C14", "C15", "C16"):
        import pycheck
        pycheck.main(prop, tier, seed)
    t0 = time.time()
    build()
    t_build = time.time() - t0
    work = os.path.join(BUILD, "run_" + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for f in glob.glob(os.path.join(HERE, "replays", prop + "-*")):
        os.remove(f)
    kf = known(prop)
    for _, _, text in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    violations = []  # (plan, class, detail)
    errors = []

    # committed plans, minimised from defects seen before
    corpus = sorted(glob.glob(os.path.join(HERE, "corpus", prop, "*.plan")))
    for plan in corpus:
        rc, cls, _, detail = execute(plan)
        if rc == 1 and not is_known(kf, cls, detail):
            violations.append((plan, cls, detail))
        elif rc not in (0, 1):
            errors.append("%s: %s" % (plan, detail))

    nruns = int(os.environ.get("VERIF_RUNS", RUNS[prop][0 if tier == "quick" else 1]))
    t1 = time.time()
    procs = []
    for w in range(WORKERS):
        procs.append(subprocess.Popen([SIM, "run", prop, "--seed", str(seed), "--from", str(w), "--to", str(nruns),
                                       "--stride", str(WORKERS), "--out", os.path.join(work, "w%d" % w), "--deadline",
                                       str(DEADLINE[tier]), "--maxviol", "6"], stdout=subprocess.DEVNULL))
    for p in procs:
        p.wait()
    t_run = time.time() - t1
    tot = {}
    runs = nontrivial = steps = fault_runs = rechecked = 0
    traces, sigs = set(), set()
    cut = False
    cov = bytearray(1 << 17)
    edge = bytearray(1 << 16)
    for w in range(WORKERS):
        path = os.path.join(work, "w%d.json" % w)
        if not os.path.exists(path):
            errors.append("worker %d ended without a result" % w)
            continue
        d = json.load(open(path))
        runs += d["runs"]
        nontrivial += d["nontrivial"]
        steps += d["steps"]
        fault_runs += d["fault_runs"]
        rechecked += d["rechecked"]
        cut = cut or d["cut"]
        traces.update(d["traces"])
        sigs.update(d["sigs"])
        for k, v in d["counters"].items():
            tot[k] = tot.get(k, 0) + v
        if d["harness"]:
            errors.append(d["harness"])
        for name, acc in ((".cov", cov), (".edge", edge)):
            b = open(os.path.join(work, "w%d" % w) + name, "rb").read()
            for i, x in enumerate(b):
                if x:
                    acc[i] = 1
    for path in sorted(glob.glob(os.path.join(work, "w*.viol.*"))):
        head = open(path, errors="replace").read().split("\n", 3)
        cls, detail = head[0][8:], head[2][9:]
        if not is_known(kf, cls, detail):
            violations.append((path, cls, detail))

    done, seen = [], set()
    limit = 60 if tier == "quick" else 180
    for path, cls, detail in violations:
        if cls in seen or len(seen) >= 3:
            continue
        if path.startswith(os.path.join(HERE, "corpus")):
            done.append((path, execute(path)))
            seen.add(cls)
            continue
        m = re.search(r"^# run (\d+)", open(path, errors="replace").read(), re.M)
        name = "%s-%s-s%d-r%s.plan" % (prop, cls, seed, m.group(1) if m else "x")
        r, err = confirm(prop, path, name, limit)
        if err:
            errors.append(err)
        elif not is_known(kf, r[1][1], r[1][3]):
            done.append(r)
            seen.add(cls)

    gen = sh([SIM, "gen", prop, "--seed", str(seed), "--run", "1"]).stdout.strip().split("\n")
    faults = {k[2:]: v for k, v in tot.items() if k.startswith("f_") and v}
    probes = {k[6:]: v for k, v in tot.items() if k.startswith("probe_") and v}
    other = {k: v for k, v in tot.items() if not k.startswith(("f_", "probe_")) and v}
    hours = max(t_run, 1e-3) / 3600
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(traces),
            "rule": RULE[prop],
            "samples": [gen],
            "nontrivial_runs": nontrivial,
            "distinct_coverage_signatures": len(sigs),
            "distinct_measure": "traces: hash over every simulated event and answer of a run; signatures: set of basic blocks of the library reached by a run",
            "basic_blocks_reached": sum(cov),
            "block_pairs_reached": sum(edge),
            "runs_with_fault": fault_runs,
            "fault_kinds": faults,
            "probes": probes,
            "workload": other,
            "library_steps": steps,
            "simulated_io_seconds": round(tot.get("sim_io_us", 0) / 1e6, 3),
            "runs_per_hour": int(runs / hours),
            "seeds_note": "every run has its own seed, derived from (VERIF_SEED, property, run number): runs per hour are seeds per hour",
            "rechecked_for_repeatability": rechecked,
            "regression_plans": len(corpus),
            "cut_by_deadline": cut,
            "task_switches": tot.get("task_switches", 0),
            "real": REAL,
            "stub": STUB,
        },
        "violations": [{"class": r[1][1], "detail": r[1][3], "replay": r[0]} for r in done],
        "errors": errors,
        "build_s": round(t_build, 2),
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s: %d runs, %d distinct non-trivial traces, %d runs with faults, %.0f s" % (prop, runs, len(traces), fault_runs, time.time() - t0))
    for e in errors:
        print("ERROR: " + e)
    if done:
        for path, r in done:
            print("  %s: %s" % (r[1], r[3]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors or runs == 0:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()

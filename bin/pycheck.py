"""The checks of the Python package's multiprocessing: the counterpart of check.py for C13 to C16."""
import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

import check as base

MAIN = os.path.join(base.HERE, "pysim", "main.py")
PYTHON = next((p for p in ("/opt/veriftools/pyvenv/bin/python3", "/usr/local/bin/python3-vt", "/usr/bin/python3-vt") if os.path.exists(p)), "python3-vt")
RUNS = {"C13": (9000, 250000), "C14": (11000, 300000), "C15": (9000, 250000), "C16": (8000, 200000)}
RULE = {
    "C13": "one case is one transform_multithreaded call on a generated file (selection, transform, output, worker count, chunk size) whose worker interleaving, completion order and delivery are drawn from the seed, compared with a sequential run; non-trivial if at least one node was selected; distinct by the hash of every scheduled event and file operation",
    "C14": "one case is one parallel transform or read call with dying workers, failing I/O, failing user functions, start-up failures or unshippable values placed from the seed; non-trivial if at least one node was selected; distinct by the hash of every scheduled event and file operation",
    "C15": "one case is one parallel read call (concatenated, mapped or with a callback) under a drawn schedule, compared with a sequential read; non-trivial if at least one node was selected; distinct by the hash of every scheduled event and file operation",
    "C16": "one case is one set of values shipped through simulated worker processes over several hops, compared accessor by accessor and in use; all are non-trivial; distinct by the hash of every scheduled event and file operation",
}
REAL = "python/copclib of the working tree (mp/transform.py, mp/read.py, mp/utils.py), python/bindings.cpp and all of cpp/src compiled from the working tree, CPython's pickling, real separate address spaces for the workers (forked, but run one at a time by the simulator)"
STUB = "pybind11 (not installed here): a stand-in header that implements what bindings.cpp uses; laz-perf: a stand-in; concurrent.futures' process pool and its threads: a simulated pool with CPython's semantics whose every event the scheduler decides; file system calls on the files of a run: interposed"


def build():
    os.makedirs(base.BUILD, exist_ok=True)
    with open(os.path.join(base.BUILD, ".pylock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = base.sh(["make", "-j%d" % (os.cpu_count() or 8), "-C", os.path.join(base.HERE, "pysim"), "REPO=" + base.REPO, "BUILD=" + base.BUILD])
    if r.returncode:
        print(r.stdout[-6000:])
        print("ERROR: the Python extension does not build from " + base.REPO)
        sys.exit(2)


def execute(plan):
    r = base.sh([PYTHON, MAIN, "exec", plan])
    f = dict(re.findall(r"^(class|trace|detail) (.*)$", r.stdout, re.M))
    return r.returncode, f.get("class", ""), f.get("trace", ""), f.get("detail", "") if f else r.stdout[-1500:]


def confirm(plan, name, limit):
    a, b = execute(plan), execute(plan)
    if a[0] != 1 or a != b:
        return None, "a violation could not be repeated: %s / %s (%s)" % (a, b, plan)
    os.makedirs(os.path.join(base.HERE, "replays"), exist_ok=True)
    out = os.path.join(base.HERE, "replays", name)
    r = base.sh([PYTHON, MAIN, "min", plan, "--time", str(limit), "--out", out])
    ok = r.returncode == 0 and os.path.exists(out)
    if ok:
        c, d = execute(out), execute(out)
        ok = c == d and c[0] == 1 and c[1] == a[1]
    if not ok:
        shutil.copy(plan, out)
        c = a
    return (out, c), None


def main(prop, tier, seed):
    t0 = time.time()
    build()
    t_build = time.time() - t0
    work = os.path.join(base.BUILD, "run_" + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for f in glob.glob(os.path.join(base.HERE, "replays", prop + "-*")):
        os.remove(f)
    kf = base.known(prop)
    for _, _, text in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    violations, errors = [], []
    corpus = sorted(glob.glob(os.path.join(base.HERE, "corpus", prop, "*.json")))
    for plan in corpus:
        rc, cls, _, detail = execute(plan)
        if rc == 1 and not base.is_known(kf, cls, detail):
            violations.append((plan, cls, detail))
        elif rc not in (0, 1):
            errors.append("%s: %s" % (plan, detail))

    nruns = int(os.environ.get("VERIF_RUNS", RUNS[prop][0 if tier == "quick" else 1]))
    t1 = time.time()
    procs = [subprocess.Popen([PYTHON, MAIN, "run", prop, "--seed", str(seed), "--from", str(w), "--to", str(nruns), "--stride",
                               str(base.WORKERS), "--out", os.path.join(work, "w%d" % w), "--deadline", str(base.DEADLINE[tier]),
                               "--maxviol", "6"], stdout=subprocess.DEVNULL) for w in range(base.WORKERS)]
    for p in procs:
        p.wait()
    t_run = time.time() - t1
    runs = nontrivial = steps = fault_runs = rechecked = 0
    traces, inters, cnt, fired = set(), set(), {}, {}
    cut = False
    for w in range(base.WORKERS):
        path = os.path.join(work, "w%d.json" % w)
        if not os.path.exists(path):
            errors.append("worker %d ended without a result" % w)
            continue
        d = json.load(open(path))
        runs += d["runs"]
        nontrivial += d["nontrivial"]
        steps += d["steps"]
        fault_runs += d["fault_runs"]
        rechecked += d["rechecked"]
        cut = cut or d["cut"]
        traces.update(d["traces"])
        inters.update(d["inters"])
        for k, v in d["counters"].items():
            cnt[k] = cnt.get(k, 0) + v
        for k, v in d["fired"].items():
            fired[k] = fired.get(k, 0) + v
        if d["harness"]:
            errors.append(d["harness"])
    for path in sorted(glob.glob(os.path.join(work, "w*.viol.*"))):
        f = json.load(open(path))["found"]
        if not base.is_known(kf, f["class"], f["detail"]):
            violations.append((path, f["class"], f["detail"]))

    done, seen = [], set()
    limit = 60 if tier == "quick" else 180
    for path, cls, detail in violations:
        if cls in seen or len(seen) >= 3:
            continue
        if path.startswith(os.path.join(base.HERE, "corpus")):
            done.append((path, execute(path)))
            seen.add(cls)
            continue
        f = json.load(open(path))["found"]
        r, err = confirm(path, "%s-%s-s%d-r%s.json" % (prop, cls, seed, f["run"]), limit)
        if err:
            errors.append(err)
        elif not base.is_known(kf, r[1][1], r[1][3]):
            done.append(r)
            seen.add(cls)

    g = base.sh([PYTHON, MAIN, "gen", prop, "--seed", str(seed), "--run", "1"]).stdout
    try:
        sample = json.loads(g)
    except ValueError:
        sample = g
    hours = max(t_run, 1e-3) / 3600
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(traces),
            "rule": RULE[prop],
            "samples": [sample],
            "nontrivial_runs": nontrivial,
            "distinct_interleavings": len(inters),
            "distinct_measure": "traces: hash over every scheduled event, file operation and answer of a run; interleavings: hash over the order of scheduled events (which process ran, what was fed, taken, delivered)",
            "runs_with_fault": fault_runs,
            "fault_kinds": fired,
            "workload": {k: v for k, v in cnt.items() if k.startswith("mode_") or k == "tasks"},
            "scheduled_events": {k: v for k, v in cnt.items() if not k.startswith("mode_") and k != "tasks"},
            "library_steps": steps,
            "simulated_time_note": "the package reads no clock and sets no timers; simulated time is the count of scheduled events",
            "runs_per_hour": int(runs / hours),
            "seeds_note": "every run has its own seed, derived from (VERIF_SEED, property, run number): runs per hour are seeds per hour",
            "rechecked_for_repeatability": rechecked,
            "regression_plans": len(corpus),
            "cut_by_deadline": cut,
            "real": REAL,
            "stub": STUB,
        },
        "violations": [{"class": r[1][1], "detail": r[1][3], "replay": r[0]} for r in done],
        "errors": errors,
        "build_s": round(t_build, 2),
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(base.HERE, "evidence"), exist_ok=True)
    with open(os.path.join(base.HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s: %d runs, %d distinct non-trivial traces, %d runs with faults, %.0f s" % (prop, runs, len(traces), fault_runs, time.time() - t0))
    for e in errors:
        print("ERROR: " + e)
    if done:
        for path, r in done:
            print("  %s: %s" % (r[1], r[3]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors or runs == 0:
        sys.exit(2)
    sys.exit(0)

"""Runs simulated executions of the Python package.

  main.py run PROP --seed N --from A --to B --stride S --out PREFIX [--deadline S] [--maxviol N]
  main.py exec PLAN [-v]
  main.py min PLAN --out FILE [--time S]
  main.py gen PROP --seed N --run N
"""
import argparse
import copy
import ctypes
import hashlib
import importlib.util
import json
import os
import random
import re
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(HERE), "build"))
ENV = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "SIMIO": os.path.join(BUILD, "py", "simio.so"),
       "LD_PRELOAD": os.path.join(BUILD, "py", "simio.so")}
TIMEOUT = 90


def load():
    """the package of the working tree, with the freshly built extension"""
    sys.path.insert(0, HERE)
    import sched
    sched.install()
    pkg = os.path.join(REPO, "python", "copclib")
    spec = importlib.util.spec_from_file_location("copclib", os.path.join(pkg, "__init__.py"),
                                                  submodule_search_locations=[pkg, os.path.join(BUILD, "py", "ext")])
    m = importlib.util.module_from_spec(spec)
    sys.modules["copclib"] = m
    spec.loader.exec_module(m)
    import scen
    return scen


def subreap():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)  # PR_SET_PDEATHSIG


class Zygote:
    """A process that does nothing but fork: every execution starts from the same memory, whatever ran before it."""

    def __init__(self, scen):
        r, self.w = os.pipe()
        self.r, w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            subreap()
            os.close(self.w)
            os.close(self.r)
            while True:
                if not os.read(r, 1):
                    os._exit(0)
                pid = os.fork()
                if pid == 0:
                    try:
                        self.child(scen, r, w)
                    finally:
                        os._exit(1)
                os.write(w, b"P" + struct.pack("<i", pid))
                os.write(w, b"S" + struct.pack("<i", os.waitpid(pid, 0)[1]))
        os.close(r)
        os.close(w)

    def child(self, scen, r, w):
        try:
            os.setsid()
            subreap()
            n = struct.unpack("<Q", readn(r, 8))[0]
            job = json.loads(readn(r, n))
            os.close(r)
            os.chdir(job["dir"])
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            out = scen.execute(job["plan"], ".")
            out["text"] = re.sub(r"0x[0-9a-f]+", "0x", out["text"] or "")
        except BaseException:
            import traceback
            out = {"harness": traceback.format_exc()[-3000:]}
        b = json.dumps(out).encode()
        b = b"R" + struct.pack("<Q", len(b)) + b
        while b:
            b = b[os.write(w, b):]
        os._exit(0)

    def once(self, plan, base):
        d = tempfile.mkdtemp(dir=base)
        job = json.dumps({"plan": plan, "dir": d}).encode()
        job = b"G" + struct.pack("<Q", len(job)) + job
        while job:
            job = job[os.write(self.w, job):]
        out, pid, status = None, 0, 0
        end = time.time() + TIMEOUT
        late = False
        while True:
            if not late and not select.select([self.r], [], [], max(0, end - time.time()))[0]:
                late = True
                os.killpg(pid, signal.SIGKILL)
                continue
            k = os.read(self.r, 1)
            if k == b"P":
                pid = struct.unpack("<i", readn(self.r, 4))[0]
            elif k == b"R":
                out = json.loads(readn(self.r, struct.unpack("<Q", readn(self.r, 8))[0]))
            elif k == b"S":
                status = struct.unpack("<i", readn(self.r, 4))[0]
                break
            else:
                raise RuntimeError("the zygote is gone")
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        shutil.rmtree(d, ignore_errors=True)
        if out is None:
            out = {"kind": "hang" if late else "crash", "text": "the call does not come back" if late else
                   "the process ended with signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status) else "the process ended",
                   "nontrivial": True, "trace": "0" * 16, "inter": "0", "steps": 0, "fired": {}, "switches": 0, "events": {}, "tasks": 0,
                   "used": 0, "log": None}
        return out


def readn(f, n):
    b = b""
    while len(b) < n:
        c = os.read(f, n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


ZYG = None


def start(scen):
    global ZYG
    ZYG = Zygote(scen)


def once(scen, plan, base):
    return ZYG.once(plan, base)


def seed_of(seed, prop, i):
    return int.from_bytes(hashlib.sha256(("%d/%s/%d" % (seed, prop, i)).encode()).digest()[:8], "little")


def gen(scen, prop, seed, i):
    return scen.gen(prop, random.Random(seed_of(seed, prop, i)))


def same(a, b):
    return (a.get("kind"), a.get("text"), a.get("trace")) == (b.get("kind"), b.get("text"), b.get("trace"))


def mode_run(scen, a):
    base = tempfile.mkdtemp(prefix="pysim-")
    t0 = time.time()
    res = {"runs": 0, "nontrivial": 0, "steps": 0, "fault_runs": 0, "rechecked": 0, "cut": False, "traces": [], "inters": [], "counters": {},
           "fired": {}, "viol": 0, "harness": ""}
    traces, inters, cnt = set(), set(), res["counters"]
    viol = 0
    for i in range(getattr(a, "from"), a.to, a.stride):
        if time.time() - t0 > a.deadline:
            res["cut"] = True
            break
        plan = gen(scen, a.prop, a.seed, i)
        out = once(scen, plan, base)
        if "harness" in out:
            res["harness"] = "run %d: %s" % (i, out["harness"])
            break
        res["runs"] += 1
        res["steps"] += out["steps"]
        if out["nontrivial"]:
            res["nontrivial"] += 1
            traces.add(out["trace"][:16])
        inters.add(out["inter"])
        if out["fired"]:
            res["fault_runs"] += 1
        for k, v in out["fired"].items():
            res["fired"][k] = res["fired"].get(k, 0) + v
        for k, v in out["events"].items():
            cnt[k] = cnt.get(k, 0) + v
        cnt["switches"] = cnt.get("switches", 0) + out["switches"]
        cnt["tasks"] = cnt.get("tasks", 0) + out["tasks"]
        cnt["mode_" + plan["mode"]] = cnt.get("mode_" + plan["mode"], 0) + 1
        if out["kind"] or i % int(os.environ.get("VERIF_RECHECK", "50")) == 0:
            again = once(scen, plan, base)
            res["rechecked"] += 1
            if not same(out, again):
                res["harness"] = "run %d is not repeatable: %s / %s" % (i, (out["kind"], out["text"], out["trace"][:8]),
                                                                      (again["kind"], again["text"], again["trace"][:8]))
                break
        if out["kind"]:
            plan["found"] = {"class": out["kind"], "detail": out["text"], "run": i, "seed": a.seed}
            with open("%s.viol.%d" % (a.out, viol), "w") as f:
                json.dump(plan, f)
            viol += 1
            if viol >= a.maxviol:
                break
    res["traces"], res["inters"] = sorted(traces), sorted(inters)
    shutil.rmtree(base, ignore_errors=True)
    with open(a.out + ".json", "w") as f:
        json.dump(res, f)


def mode_exec(scen, a):
    base = tempfile.mkdtemp(prefix="pysim-")
    plan = json.load(open(a.plan))
    if a.v:
        plan["verbose"] = 1
    out = once(scen, plan, base)
    shutil.rmtree(base, ignore_errors=True)
    if "harness" in out:
        print(out["harness"])
        return 2
    for s in out["log"] or []:
        print("event " + s)
    print("class %s\ntrace %s\ndetail %s" % (out["kind"], out["trace"][:32], out["text"]))
    return 1 if out["kind"] else 0


def smaller(plan):
    """simpler variants of a plan, the boldest first"""
    def but(fn):
        q = copy.deepcopy(plan)
        fn(q)
        return q

    for i in range(len(plan.get("prior", []))):
        yield but(lambda q: q["prior"].pop(i))
    n = len(plan["src"]["nodes"])
    k = n
    while k >= 1:
        for s in range(0, n, k):
            yield but(lambda q: q["src"]["nodes"].__delitem__(slice(s, s + k)))
        k //= 2
    for i in range(len(plan["faults"])):
        yield but(lambda q: q["faults"].pop(i))
    if plan["sched"]:
        yield but(lambda q: q.__setitem__("sched", []))
        yield but(lambda q: q.__setitem__("sched", q["sched"][: len(q["sched"]) // 2]))
        yield but(lambda q: q.__setitem__("sched", q["sched"][:-1]))
        m = len(plan["sched"])
        k = max(1, m // 2)
        while k >= 1:
            for s in range(0, m, k):
                if any(plan["sched"][s:s + k]):
                    yield but(lambda q: q["sched"].__setitem__(slice(s, s + k), [0] * len(q["sched"][s:s + k])))
            if k == 1:
                break
            k //= 2
    for key in ("grain", "lead"):
        if plan.get(key):
            yield but(lambda q: q.__setitem__(key, 0))
            yield but(lambda q: q.__setitem__(key, 1))
    if plan.get("weights"):
        yield but(lambda q: q.__setitem__("weights", {}))
    for k in list(plan.get("spec", {})):
        if k != "*":
            yield but(lambda q: q["spec"].pop(k))
        for i in range(len(plan["spec"][k])):
            yield but(lambda q: q["spec"][k].pop(i))
    for i in range(len(plan.get("vals", []))):
        yield but(lambda q: q["vals"].pop(i))
    if plan.get("hops", 1) > 1:
        yield but(lambda q: q.__setitem__("hops", 1))
    if plan.get("add"):
        yield but(lambda q: q.__setitem__("add", 0))
    if plan["src"]["hdr"]:
        yield but(lambda q: q["src"].__setitem__("hdr", {}))
        for k in plan["src"]["hdr"]:
            yield but(lambda q: q["src"]["hdr"].pop(k))
    for k, v in (("wkt", ""), ("ext", False), ("eb", 0)):
        if plan["src"][k]:
            yield but(lambda q: q["src"].__setitem__(k, v))
    if "raw" in plan["src"]:
        yield but(lambda q: q["src"].pop("raw"))
        for i in range(3):
            if plan["src"]["raw"][i]:
                yield but(lambda q: q["src"]["raw"].__setitem__(i, []))
    for i, nd in enumerate(plan["src"]["nodes"]):
        if nd[8] > 1:
            yield but(lambda q: q["src"]["nodes"][i].__setitem__(8, 1))
            yield but(lambda q: q["src"]["nodes"][i].__setitem__(8, nd[8] // 2))
    c = plan["call"]
    for k, v in (("progress", False), ("callback", False), ("minmax", False), ("init", None), ("limits", [])):
        if c.get(k):
            yield but(lambda q: q["call"].__setitem__(k, v))
    if c["sel"]["how"] != "all":
        yield but(lambda q: q["call"].__setitem__("sel", {"how": "all"}))
    if c["sel"].get("keys"):
        for i in range(len(c["sel"]["keys"])):
            yield but(lambda q: q["call"]["sel"]["keys"].pop(i))
    if c["workers"] != 1:
        yield but(lambda q: q["call"].__setitem__("workers", 1))
        if c["workers"] != 2:
            yield but(lambda q: q["call"].__setitem__("workers", 2))
    if c["chunk"] != 1024:
        yield but(lambda q: q["call"].__setitem__("chunk", 1024))


def mode_min(scen, a):
    base = tempfile.mkdtemp(prefix="pysim-")
    plan = json.load(open(a.plan))
    found = plan.pop("found", None)
    t0 = time.time()
    first = once(scen, plan, base)
    if not first.get("kind"):
        return 2
    kind = first["kind"]
    best, out = plan, first
    go = True
    while go and time.time() - t0 < a.time:
        go = False
        for q in smaller(best):
            if time.time() - t0 > a.time:
                break
            try:
                o = once(scen, q, base)
            except Exception:
                continue
            if o.get("kind") == kind:
                best, out, go = q, o, True
                break
    # unused choices at the end
    if out.get("used", 0) < len(best["sched"]):
        q = copy.deepcopy(best)
        q["sched"] = q["sched"][: out["used"]]
        o = once(scen, q, base)
        if o.get("kind") == kind:
            best, out = q, o
    best["found"] = {"class": out["kind"], "detail": out["text"]}
    if found:
        best["found"].update({k: found[k] for k in ("run", "seed") if k in found})
    with open(a.out, "w") as f:
        f.write(dump(best))
    shutil.rmtree(base, ignore_errors=True)
    return 0


def dump(plan):
    """one line per part, so that a person can read it"""
    return "{\n" + ",\n".join(" %s: %s" % (json.dumps(k), json.dumps(v)) for k, v in plan.items()) + "\n}\n"


def main():
    if os.environ.get("LD_PRELOAD") != ENV["LD_PRELOAD"] or os.environ.get("PYTHONHASHSEED") != "0":
        os.environ.update(ENV)
        # the library orders some sets by address: the same addresses every time
        ctypes.CDLL(None).personality(ctypes.c_ulong(0x0040000))  # ADDR_NO_RANDOMIZE
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.dont_write_bytecode = True
    scen = load()
    start(scen)
    p = argparse.ArgumentParser()
    s = p.add_subparsers(dest="mode")
    r = s.add_parser("run")
    r.add_argument("prop")
    for n, d in (("seed", 1), ("from", 0), ("to", 100), ("stride", 1), ("deadline", 1000), ("maxviol", 6)):
        r.add_argument("--" + n, type=int, default=d)
    r.add_argument("--out", required=True)
    e = s.add_parser("exec")
    e.add_argument("plan")
    e.add_argument("-v", action="store_true")
    m = s.add_parser("min")
    m.add_argument("plan")
    m.add_argument("--out", required=True)
    m.add_argument("--time", type=int, default=60)
    g = s.add_parser("gen")
    g.add_argument("prop")
    g.add_argument("--seed", type=int, default=1)
    g.add_argument("--run", type=int, default=0)
    a = p.parse_args()
    if a.mode == "run":
        sys.exit(mode_run(scen, a))
    if a.mode == "exec":
        sys.exit(mode_exec(scen, a))
    if a.mode == "min":
        sys.exit(mode_min(scen, a))
    print(dump(gen(scen, a.prop, a.seed, a.run)), end="")


if __name__ == "__main__":
    main()

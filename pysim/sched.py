"""A simulated concurrent.futures process pool.

Worker processes are real forks of this process (so that their memory is their own, as in a real pool), but each of them
only ever runs when the scheduler lets it, up to its next operation on a file or its next result: at any moment exactly
one process runs, and which one, what its file operations return and when it dies are decided by the plan.  The
executor's own threads (the feeder that pickles calls, the manager that receives results and notices dead workers) are
events of the same scheduler.  The semantics follow CPython 3.12's ProcessPoolExecutor."""
import concurrent.futures
import concurrent.futures._base as _base
import concurrent.futures.process as _process
import ctypes
import hashlib
import os
import pickle
import signal
import struct
import sys
from functools import partial
from multiprocessing.reduction import ForkingPickler

ACT = {"go": 0, "eio": 1, "short": 2, "eof": 3, "eintr": 4, "enospc": 5, "emfile": 6}
OPS = ["open", "read", "write", "seek", "close"]
MAXSTEPS = 400000
simio = ctypes.CDLL(os.environ["SIMIO"])
simio.simio_watch.argtypes = [ctypes.c_char_p]
simio.simio_fault.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_long]
simio.simio_count.restype = ctypes.c_long
simio.simio_fired.restype = ctypes.c_long
simio.simio_trace.restype = ctypes.c_ulonglong


class Hang(BaseException):
    """The system waits for something no event can bring about."""


class World:
    cur = None

    def __init__(self, plan):
        self.plan = plan
        self.sched = plan.get("sched", [])
        self.pos = 0
        self.steps = 0
        self.trace = hashlib.sha256()
        self.inter = hashlib.sha256()
        self.cpu = plan.get("cpu", 4)
        self.grain = plan.get("grain", 0)
        self.lead = plan.get("lead", 0)
        self.weights = plan.get("weights", {})
        self.faults = [dict(f) for f in plan.get("faults", [])]
        self.fired = {}
        self.switches = 0
        self.pools = []
        self.log = [] if plan.get("verbose") else None
        self.ntask = 0
        self.counts = {}
        self.last = None

    def note(self, *ev):
        s = repr(ev)
        self.trace.update(s.encode())
        if self.log is not None:
            self.log.append(s)

    def draw(self, n):
        if n <= 1:
            return 0
        if self.pos < len(self.sched):
            v = self.sched[self.pos]
            self.pos += 1
            return v % n
        return 0

    def pick(self, events):
        """events: list of (kind, ..., weight); the first one is the plain default"""
        if len(events) == 1:
            return events[0]
        w = [max(1, int(e[-1])) for e in events]
        r = self.draw(sum(w))
        for e, k in zip(events, w):
            if r < k:
                return e
            r -= k
        return events[-1]

    def fire(self, f):
        f["done"] = True
        self.fired[f["k"]] = self.fired.get(f["k"], 0) + 1

    def fault(self, **at):
        for f in self.faults:
            if not f.get("done") and all(f.get(k) == v for k, v in at.items()):
                self.fire(f)
                self.note("fault", f["k"])
                return f
        return None

    def events(self):
        ev = []
        for p in self.pools:
            ev += p.events()
        return ev

    def step(self):
        """one background event; False if there is none"""
        ev = self.events()
        if not ev:
            return False
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Hang("step limit")
        e = self.pick(ev)
        who = (e[0], e[2].index if e[2] is not None else -1)
        if self.last is not None and e[2] is not None and self.last != who[1]:
            self.switches += 1
        if e[2] is not None:
            self.last = who[1]
        self.inter.update(repr(who).encode())
        self.counts[e[0]] = self.counts.get(e[0], 0) + 1
        e[1].do(e[0], e[2])
        return True

    def background(self):
        """the other threads and processes move on while the main thread runs"""
        n = self.draw(self.lead + 1) if self.lead else 0
        for _ in range(n):
            if not self.step():
                break

    def late(self, timeout):
        """a time limit may always be too short: nothing bounds how long the others take"""
        return timeout is not None and self.draw(4) == 1

    def until(self, cond):
        while not cond():
            if not self.step():
                raise Hang("the main thread waits and nothing is left to run")


class SimFuture(_base.Future):
    def result(self, timeout=None):
        w = World.cur
        w.background()
        if not self.done() and w.late(timeout):
            raise TimeoutError()
        w.until(self.done)
        return super().result(0)

    def exception(self, timeout=None):
        w = World.cur
        w.background()
        if not self.done() and w.late(timeout):
            raise TimeoutError()
        w.until(self.done)
        return super().exception(0)


class Worker:
    def __init__(self, pool, index):
        self.pool = pool
        self.index = index
        self.state = "new"
        self.task = None  # (work_id, global task number) while running
        self.io = 0
        self.ntasks = 0
        self.buf = None
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for q in World.cur.pools:
                    for o in q.workers:
                        o.drop()
                child(pool, r1, w2)
            finally:
                os._exit(7)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def drop(self):
        for f in (self.w, self.r):
            if f >= 0:
                try:
                    os.close(f)
                except OSError:
                    pass
        self.w = self.r = -1

    def read(self, n):
        b = b""
        while len(b) < n:
            c = os.read(self.r, n - len(b))
            if not c:
                return None
            b += c
        return b

    def kill(self):
        if self.pid:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(self.pid, 0)
            self.pid = 0
        self.drop()
        self.state = "dead"

    def send(self, b):
        try:
            os.write(self.w, b)
        except OSError:
            pass

    def resume(self, first):
        """lets the process run until the scheduler takes over again"""
        world = World.cur
        if first is not None:
            self.send(first)
        while True:
            h = self.read(1)
            if h == b"Y":
                op, size = struct.unpack("<BI", self.read(5))
                t = self.task[1] if self.task else -1 - self.index
                world.note("io", self.index, t, self.io, OPS[op], size)
                f = world.fault(task=t, io=self.io)
                self.io += 1
                act = 0
                if f:
                    if f["k"] == "kill":
                        self.kill()
                        world.note("killed", self.index)
                        return
                    act = ACT[f["k"]]
                if not f and world.grain and self.io % world.grain == 0:
                    self.pending = act
                    return  # another process may run here
                self.send(bytes([act]))
            elif h == b"R":
                n, phase = struct.unpack("<QB", self.read(9))
                data = self.read(n)
                t = self.task[1] if self.task else -1 - self.index
                f = world.fault(task=t, io=-1)
                if f:
                    self.kill()
                    world.note("killed before sending", self.index)
                    return
                if phase == 0:  # initialised
                    self.state = "idle"
                else:
                    self.pool.results.append((self, data))
                    self.state = "idle"
                    self.task = None
                    world.note("result", self.index, t)
                return
            else:  # the process ended: initialiser failed, call could not be unpickled, or it killed itself
                self.kill()
                world.note("ended", self.index)
                return


def child(pool, r, w):
    """the main loop of a worker process: CPython's _process_worker over the scheduler's pipe"""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)

    def get(n):
        b = b""
        while len(b) < n:
            c = os.read(r, n - len(b))
            if not c:
                os._exit(0)
            b += c
        return b

    def put(phase, data):
        simio.simio_on(0)
        m = b"R" + struct.pack("<QB", len(data), phase) + data
        while m:
            m = m[os.write(w, m):]
        simio.simio_on(1)

    get(1)
    simio.simio_worker(r, w)
    if pool._initializer is not None:
        try:
            pool._initializer(*pool._initargs)
        except BaseException:
            os._exit(1)
    put(0, b"")
    while True:
        n = struct.unpack("<Q", get(8))[0]
        if n == 0:
            os._exit(0)
        item = pickle.loads(get(n))  # a failure here ends the process, as it does for real
        try:
            res = _process._ResultItem(item.work_id, result=item.fn(*item.args, **item.kwargs))
        except BaseException as e:
            res = _process._ResultItem(item.work_id, exception=_process._ExceptionWithTraceback(e, e.__traceback__))
        try:
            data = bytes(ForkingPickler.dumps(res))
        except BaseException as e:
            exc = _process._ExceptionWithTraceback(e, e.__traceback__)
            data = bytes(ForkingPickler.dumps(_process._ResultItem(item.work_id, exception=exc)))
        del item, res
        put(1, data)


class SimPool(_base.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        w = World.cur
        if max_workers is None:
            max_workers = w.cpu
        elif max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self._max_workers = max_workers
        self._initializer = initializer
        self._initargs = initargs
        self._broken = False
        self._shutdown = False
        self._cancel = False
        self.workers = []
        self.pending = {}  # work id -> item
        self.queue = []  # work ids not yet in the call queue
        self.calls = []  # pickled calls
        self.results = []
        self.next_id = 0
        self.max_tasks = max_tasks_per_child
        w.pools.append(self)

    # ---- scheduler side
    def weight(self, kind, worker=None):
        w = World.cur.weights
        x = w.get(kind, 10)
        if worker is not None:
            x = x * w.get("w%d" % (worker.index % 8), 10) // 10
        return x

    def events(self):
        ev = []
        if self._broken:
            return ev
        if self.results:
            ev.append(("deliver", self, None, self.weight("deliver")))
        for w in self.workers:
            if w.state in ("run", "init"):
                ev.append(("step", self, w, self.weight("step", w)))
        if self.calls:
            for w in self.workers:
                if w.state == "idle":
                    ev.append(("take", self, w, self.weight("take", w)))
        if self.queue and len(self.calls) < self._max_workers + 1:
            ev.append(("feed", self, None, self.weight("feed")))
        for w in self.workers:
            if w.state == "new":
                ev.append(("start", self, w, self.weight("start", w)))
        if not self.results and any(w.state == "dead" for w in self.workers):
            ev.append(("detect", self, None, self.weight("detect")))
        for f in World.cur.faults:
            if f["k"] == "killidle" and not f.get("done") and World.cur.steps >= f["step"]:
                live = [w for w in self.workers if w.state == "idle"]
                if live:
                    ev.append(("killidle", self, live[f.get("w", 0) % len(live)], 1000000))
                    break
        return ev

    def do(self, kind, w):
        world = World.cur
        if kind == "deliver":
            worker, data = self.results.pop(0)
            try:
                item = pickle.loads(data)
            except BaseException as e:
                world.note("unreadable result")
                self.breakdown(e)
                return
            world.note("deliver", item.work_id)
            work = self.pending.pop(item.work_id, None)
            if work is not None:
                if item.exception:
                    work.future.set_exception(item.exception)
                else:
                    work.future.set_result(item.result)
        elif kind == "step":
            pending, w.pending = w.pending, 0
            w.resume(bytes([pending]))
        elif kind == "start":
            w.state = "init"
            w.io = 0
            w.pending = 0
            f = world.fault(task=-1 - w.index, io=-2)
            if f:
                w.kill()
                return
            w.resume(b"G")
        elif kind == "take":
            work_id, number, data = self.calls.pop(0)
            w.state = "run"
            w.task = (work_id, number)
            w.io = 0
            w.pending = 0
            world.note("take", w.index, number)
            if world.fault(task=number, io=-2):
                w.kill()
                return
            # the pipe may be smaller than the call; the worker is reading
            m = struct.pack("<Q", len(data)) + data
            while m:
                try:
                    m = m[os.write(w.w, m):]
                except OSError:
                    break
            w.resume(None)
        elif kind == "feed":
            work_id = self.queue.pop(0)
            work = self.pending[work_id]
            if not work.future.set_running_or_notify_cancel():
                del self.pending[work_id]
                return
            try:
                data = bytes(ForkingPickler.dumps(_process._CallItem(work_id, work.fn, work.args, work.kwargs)))
            except BaseException as e:
                self.pending.pop(work_id, None)
                work.future.set_exception(e)
                return
            world.note("feed", work.number, len(data))
            self.calls.append((work_id, work.number, data))
        elif kind == "detect":
            self.breakdown(None)
        elif kind == "killidle":
            for f in world.faults:
                if f["k"] == "killidle" and not f.get("done"):
                    world.fire(f)
                    break
            w.kill()

    def breakdown(self, cause):
        World.cur.note("broken")
        self._broken = "A child process terminated abruptly, the process pool is not usable anymore"
        self._shutdown = True
        exc = _process.BrokenProcessPool("A process in the process pool was terminated abruptly while the future was running or pending.")
        items, self.pending = self.pending, {}
        self.queue, self.calls, self.results = [], [], []
        for w in self.workers:
            w.kill()
        for it in items.values():
            try:
                it.future.set_exception(exc)
            except _base.InvalidStateError:
                pass

    # ---- the executor's interface
    def submit(self, fn, /, *args, **kwargs):
        if self._broken:
            raise _process.BrokenProcessPool(self._broken)
        if self._shutdown:
            raise RuntimeError("cannot schedule new futures after shutdown")
        world = World.cur
        f = SimFuture()
        work = _process._WorkItem(f, fn, args, kwargs)
        work.number = world.ntask
        world.ntask += 1
        self.pending[self.next_id] = work
        self.queue.append(self.next_id)
        self.next_id += 1
        if not self.workers:
            for i in range(self._max_workers):
                self.workers.append(Worker(self, i))
        world.note("submit", work.number)
        world.background()
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        results = super().map(partial(_process._process_chunk, fn), _process._get_chunks(*iterables, chunksize=chunksize), timeout=timeout)
        return _process._chain_from_iterable_of_lists(results)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shutdown = True
        if cancel_futures:
            for i in list(self.pending):
                if self.pending[i].future.cancel():
                    del self.pending[i]
                    self.queue = [q for q in self.queue if q != i]
        if wait:
            World.cur.until(lambda: not self.pending and not self.results)
            self.finish()

    def finish(self):
        for w in self.workers:
            w.kill()
        self.workers = []
        if self in World.cur.pools:
            World.cur.pools.remove(self)


def as_completed(fs, timeout=None):
    world = World.cur
    fs = list(dict.fromkeys(fs))
    world.background()
    while fs:
        if not any(f.done() for f in fs) and world.late(timeout):
            raise TimeoutError("%d futures unfinished" % len(fs))
        world.until(lambda: any(f.done() for f in fs))
        ready = [f for f in fs if f.done()]
        f = ready[world.draw(len(ready))]
        fs.remove(f)
        yield f
        world.background()


def wait(fs, timeout=None, return_when=_base.ALL_COMPLETED):
    world = World.cur
    fs = set(fs)
    world.background()

    def over():
        done = [f for f in fs if f.done()]
        if return_when == _base.FIRST_COMPLETED:
            return bool(done) or not fs
        if return_when == _base.FIRST_EXCEPTION and any(not f.cancelled() and f._exception for f in done):
            return True
        return len(done) == len(fs)

    if over() or not world.late(timeout):
        world.until(over)
    done = {f for f in fs if f.done()}
    return _base.DoneAndNotDoneFutures(done, fs - done)


def install():
    for m in (concurrent.futures, _process):
        m.ProcessPoolExecutor = SimPool
    for m in (concurrent.futures, _base):
        m.as_completed = as_completed
        m.wait = wait

"""The parallel-work seam: simulated joblib backends, executors, sleeping and core count.

Real joblib code (Parallel, batching, dispatch, ordering, error propagation) runs; what is
simulated is the pool underneath it: which worker runs which batch, when it delivers, and
whether it fails or dies.
"""
import concurrent.futures as cf
import heapq
import os
import pickle
import random
import time as _time

import joblib
import joblib.parallel as jp
from joblib._parallel_backends import ParallelBackendBase
import cloudpickle

from . import boot, core

CPUS = 4
_ident = core._ident


class Hub:
    """Pending work of one simulated machine, per submitting thread."""

    def __init__(self, seed=1, workers=3, mode="copy", latency=0.05, faults=(), batch=0, interrupt=None, weave=0):
        self.rng = random.Random(seed)
        self.workers = workers
        self.mode = mode              # copy: pickled to the worker; share: shared memory; fork: real forked workers
        self.latency = latency
        self.faults = {int(f[0]): f[1] for f in faults}       # job number -> fault
        self.batch = batch
        self.weave = weave            # mean number of steps between switches of worker threads (0: no interleaving)
        self.woven = 0
        self.interrupt = interrupt    # number of the sleep that is interrupted by the user
        self.now = 0.0
        self.q = {}                   # thread -> heap of (time, n, job)
        self.free = {}                # thread -> list of worker free times
        self.n = 0
        self.sleeps = 0
        self.delivered = []
        self.fired = {}
        self.idle = 0
        self.procs = {}
        self.pid = os.getpid()

    # -- submission
    def submit(self, func, done, shared=False):
        me = _ident()
        self.n += 1
        free = self.free.setdefault(me, [0.0] * max(1, self.workers))
        w = min(range(len(free)), key=lambda i: (free[i], i))
        start = max(self.now, free[w])
        lat = self.rng.expovariate(1.0 / self.latency) if self.latency else 0.0
        if self.rng.random() < 0.1:
            lat *= self.rng.choice([10, 1000, 20000])
        fault = self.faults.get(self.n)
        job = [func, done, fault, w, self.n]
        if shared:
            job[0] = _Shared(func)                 # a thread of this process, whatever the machine's process mode
        elif self.mode == "copy":
            job[0] = cloudpickle.dumps(func)       # arguments leave the process now
        free[w] = start + lat
        heapq.heappush(self.q.setdefault(me, []), (start + lat, self.n, job))
        return job

    def _run(self, job):
        func, done, fault, w, n = job
        if fault:
            self.fired["worker " + fault] = self.fired.get("worker " + fault, 0) + 1
        if fault == "dies":
            from joblib.externals.loky.process_executor import TerminatedWorkerError

            return ("err", TerminatedWorkerError("simulated: a worker process was killed"))
        if fault == "oom":
            return ("err", MemoryError("simulated: worker out of memory"))
        if fault == "os":
            return ("err", OSError(28, "simulated: no space left on device"))
        if fault == "interrupted":
            return ("err", KeyboardInterrupt("simulated"))
        if fault == "broken":
            return ("err", cf.process.BrokenProcessPool("simulated: pool is broken"))
        if fault == "timeout":
            return ("err", TimeoutError("simulated: worker timed out"))
        if fault == "value":
            return ("err", ValueError("simulated: worker failed"))
        if fault == "float":
            return ("err", FloatingPointError("simulated: worker failed"))
        mode = "share" if isinstance(func, _Shared) else self.mode
        try:
            if mode == "fork":
                return self._in_worker(w, func)
            f = pickle.loads(func) if mode == "copy" else func
            r = f()
            if mode == "copy":
                r = pickle.loads(cloudpickle.dumps(r))
            return ("ok", r)
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, core.SimDeadlock):
                raise
            return ("err", e)

    def _in_worker(self, w, func):
        if w not in self.procs:
            a, b = os.pipe()
            c, d = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(b)
                    os.close(c)
                    for x, y, _ in self.procs.values():      # pipes of the other workers
                        os.close(x.fileno())
                        os.close(y.fileno())
                    core.INJ.clear()
                    core.SCHED = None        # a process of its own: not scheduled with the threads
                    core.monitor(0)
                    i, o = os.fdopen(a, "rb"), os.fdopen(d, "wb")
                    while True:
                        try:
                            f = pickle.load(i)
                        except EOFError:
                            break
                        try:
                            r = ("ok", f())
                        except BaseException as e:  # noqa: BLE001
                            r = ("err", e)
                        o.write(cloudpickle.dumps(r))
                        o.flush()
                finally:
                    os._exit(0)
            os.close(a)
            os.close(d)
            self.procs[w] = (os.fdopen(c, "rb"), os.fdopen(b, "wb"), pid)
        i, o, _ = self.procs[w]
        o.write(cloudpickle.dumps(func))
        o.flush()
        return pickle.load(i)

    # -- time passes for the calling thread
    def pump(self, dt):
        me = _ident()
        self.sleeps += 1
        if self.interrupt and self.sleeps == self.interrupt:
            self.fired["interrupt while waiting"] = 1
            raise KeyboardInterrupt("simulated: interrupt while waiting for workers")
        h = self.q.get(me)
        if not h:
            self.now += dt
            elapse(dt)
            self.idle += 1
            if self.idle > 20000:
                raise core.SimDeadlock("waiting for work that nobody does")
            return
        self.idle = 0
        step = max(dt, (h[0][0] - self.now) / 2) if h[0][0] - self.now > 4 * dt else max(dt, h[0][0] - self.now)
        self.now += step
        elapse(step)
        while h and h[0][0] <= self.now:
            _, n, job = heapq.heappop(h)
            batch = [(n, job)]
            if self.weave and isinstance(job[0], _Shared) and core.SCHED is None:
                # worker threads of one process run at the same time
                more = [x for x in h if isinstance(x[2][0], _Shared)][: max(0, self.workers - 1)]
                for x in more:
                    h.remove(x)
                heapq.heapify(h)
                batch += [(x[1], x[2]) for x in more]
            for n, job, out in self._run_batch(batch):
                self.delivered.append(n)
                job[1](out)

    def _run_batch(self, batch):
        if len(batch) == 1:
            return [(n, job, self._run(job)) for n, job in batch]
        done = []

        def task(n, job):
            def body():
                done.append((n, job, self._run(job)))

            return body

        s = core.Sched([task(n, j) for n, j in batch], rng=self.rng, gap=self.weave, cap=2_000_000)
        if not s.run():
            raise core.SimDeadlock(f"worker threads: {s.deadlock}")
        self.woven += s.nswitch
        return done

    def cancel(self):
        self.q.pop(_ident(), None)

    def close(self):
        for i, o, pid in self.procs.values():
            for f in (o.close, i.close, lambda: os.kill(pid, 9), lambda: os.waitpid(pid, 0)):
                try:
                    f()
                except Exception:
                    pass
        self.procs = {}


HUB = Hub()


def reset(**kw):
    global HUB
    HUB = Hub(**kw)
    return HUB


class SimBackend(ParallelBackendBase):
    default_n_jobs = -1
    supports_retrieve_callback = True
    supports_inner_max_num_threads = True
    uses_threads = False
    supports_sharedmem = False
    supports_return_generator = True

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        if n_jobs is None:
            return 1
        if n_jobs < 0:
            return max(HUB.workers + 1 + n_jobs, 1)
        return n_jobs

    def submit(self, func, callback=None):
        return HUB.submit(func, callback)

    def retrieve_result_callback(self, out):
        k, v = out
        if k == "err":
            raise v
        return v

    def compute_batch_size(self):
        return HUB.batch or HUB.rng.choice([1, 1, 2, 3, 5])

    def abort_everything(self, ensure_ready=True):
        HUB.cancel()

    def terminate(self):
        HUB.cancel()

    def get_nested_backend(self):
        return SimBackend(nesting_level=(self.nesting_level or 0) + 1), None


class SimThreads(SimBackend):
    uses_threads = True
    supports_sharedmem = True

    def submit(self, func, callback=None):
        return HUB.submit(func, callback, shared=True)


class _Shared:
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


# ------------------------------------------------------------------ concurrent.futures
class SimFuture(cf.Future):
    def _drive(self):
        n = 0
        while not self.done():
            n += 1
            if n > 50000:
                raise core.SimDeadlock("future never completes")
            vsleep(0.01)

    def result(self, timeout=None):
        self._drive()
        return super().result(0)

    def exception(self, timeout=None):
        self._drive()
        return super().exception(0)


class SimExecutor(cf.Executor):
    shared = True

    def __init__(self, max_workers=None, *a, **k):
        self._closed = False

    def submit(self, fn, /, *args, **kwargs):
        if self._closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture()

        def done(out):
            if f.cancelled():
                return
            if out[0] == "ok":
                f.set_result(out[1])
            else:
                f.set_exception(out[1])

        call = _Call(fn, args, kwargs)
        HUB.submit(call, done, shared=self.shared)
        self._fs = getattr(self, "_fs", [])
        self._fs.append(f)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]

        def it():
            for f in fs:
                yield f.result()

        return it()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._closed = True
        if wait:
            for f in getattr(self, "_fs", []):
                if not f.cancelled():
                    f._drive()


class SimProcessExecutor(SimExecutor):
    shared = False


class _Call:
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def __call__(self):
        return self.f(*self.a, **self.k)


def as_completed(fs, timeout=None):
    pend = list(fs)
    n = 0
    while pend:
        d = [f for f in pend if f.done()]
        for f in d:
            pend.remove(f)
            yield f
        if pend and not d:
            n += 1
            if n > 50000:
                raise core.SimDeadlock("futures never complete")
            vsleep(0.01)


def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)
    n = 0
    while True:
        d = {f for f in fs if f.done()}
        bad = any(not f.cancelled() and f.done() and cf.Future.exception(f, 0) is not None for f in d)
        if len(d) == len(fs) or (d and return_when == cf.FIRST_COMPLETED) or (bad and return_when == cf.FIRST_EXCEPTION):
            return cf._base.DoneAndNotDoneFutures(d, fs - d)
        n += 1
        if n > 50000:
            raise core.SimDeadlock("futures never complete")
        vsleep(0.01)


# ------------------------------------------------------------------ multiprocessing pools
class _Async:
    def __init__(self, fs, single, cb=None, ecb=None):
        self.fs, self.single, self.cb, self.ecb = fs, single, cb, ecb

    def get(self, timeout=None):
        try:
            r = [f.result() for f in self.fs]
        except BaseException as e:
            if self.ecb:
                self.ecb(e)
            raise
        r = r[0] if self.single else r
        if self.cb:
            self.cb(r)
        return r

    def wait(self, timeout=None):
        for f in self.fs:
            f._drive()

    def ready(self):
        return all(f.done() for f in self.fs)

    def successful(self):
        return all(cf.Future.exception(f, 0) is None for f in self.fs)


class SimPool:
    _ex = SimProcessExecutor

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        self.ex = self._ex()
        if initializer:
            initializer(*initargs)

    def apply(self, f, args=(), kwds={}):
        return self.ex.submit(f, *args, **kwds).result()

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        return _Async([self.ex.submit(f, *args, **kwds)], True, callback, error_callback)

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return _Async([self.ex.submit(f, x) for x in it], False, callback, error_callback)

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return _Async([self.ex.submit(f, *x) for x in it], False, callback, error_callback)

    def map(self, f, it, chunksize=None):
        return self.map_async(f, it).get()

    def starmap(self, f, it, chunksize=None):
        return self.starmap_async(f, it).get()

    def imap(self, f, it, chunksize=1):
        fs = [self.ex.submit(f, x) for x in it]
        return (g.result() for g in fs)

    def imap_unordered(self, f, it, chunksize=1):
        return (g.result() for g in as_completed([self.ex.submit(f, x) for x in it]))

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class SimThreadPool(SimPool):
    _ex = SimExecutor


# ------------------------------------------------------------------ sleeping and cores
class Mono:
    """The simulated monotonic clock: moves by `step` at every reading and by the length of every sleep."""

    now = 1_000_000_000_000
    step = 1000


def _mono_ns():
    Mono.now += Mono.step
    return Mono.now


def _mono():
    return _mono_ns() / 1e9


def elapse(s):
    """Time passes (somebody was slow)."""
    Mono.now += int(s * 1e9)
    boot.shim.clock_add(int(s * 1e9))


def vsleep(s=0.0):
    """time.sleep of the simulated world."""
    HUB.pump(max(float(s), 1e-4))
    sch, t = core.current_task()
    if t is not None:
        sch.yield_now(t)


def _cpus(*a, **k):
    return CPUS


def install():
    """Before the library is imported."""
    import multiprocessing

    core.ELAPSE = elapse

    for k in list(jp.BACKENDS):
        jp.BACKENDS[k] = SimThreads if k == "threading" else SimBackend
    jp.DEFAULT_BACKEND = "loky"
    _time.sleep = vsleep
    for k in ("monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(_time, k, _mono)
        setattr(_time, k + "_ns", _mono_ns)
    os.cpu_count = _cpus
    multiprocessing.cpu_count = _cpus
    joblib.cpu_count = jp.cpu_count = _cpus
    os.sched_getaffinity = lambda pid=0: set(range(CPUS))
    cf.ThreadPoolExecutor = SimExecutor
    cf.ProcessPoolExecutor = SimProcessExecutor
    import multiprocessing.pool

    multiprocessing.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    cf.as_completed = as_completed
    cf.wait = wait

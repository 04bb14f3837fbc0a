"""Simulated process pools.

Workers are real forked processes (really private memory, real pickling of tasks and results); the parent side of
multiprocessing.pool.Pool - who gets which task, when each finishes, who dies - is a seeded discrete-event scheduler.
Only one process runs at any moment.
"""
import concurrent.futures
import concurrent.futures.process as cfp
import heapq
import io
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import random
import signal
import struct
import sys
import threading
from multiprocessing.pool import ExceptionWithTraceback, MaybeEncodingError
from multiprocessing.reduction import ForkingPickler

import numpy as np

from . import rng as R
from . import clock as C
from . import world as W

_real_open = io.open
CPU_STATUS = 77
WORKER_CPU_S = 20.0

_RealPool = multiprocessing.pool.Pool
_RealThreadPool = multiprocessing.pool.ThreadPool


class PoolConfig:
    """How pools behave in this run."""

    def __init__(self):
        self.cpus = 4
        self.style = 0            # 0 tidy, 1 hog, 2 random, 3 random with long stalls
        self.max_active = 6
        self.replace_permille = 0     # idle worker is replaced before it gets its next task
        self.kill_at = None           # index of the task (over the run) during which the worker dies
        self.start_fail_at = None     # index of the fork (over the run) that fails
        self.decision_log = []


def _cfg():
    w = W.current
    if w.pool_cfg is None:
        w.pool_cfg = PoolConfig()
    return w.pool_cfg


def choose_config(w, faults=True, cpus=True):
    """Draws the behaviour of pools for this run (no kills, no start failures)."""
    c = PoolConfig()
    if cpus:
        c.cpus = w.ch.pick((4, 1, 2, 3, 5, 7, 8, 12, 16, 32))
    c.style = w.ch.weighted(1, 2, 5, 2)
    c.max_active = w.ch.pick((4, 2, 3, 5, 8, 12))
    if faults and w.ch.flip(350):
        c.replace_permille = w.ch.pick((150, 50, 400, 1000))
    w.pool_cfg = c
    return c


# ---------------------------------------------------------------------------------------------------------------------
def _dumps(obj):
    return bytes(ForkingPickler.dumps(obj))


def _send(f, data):
    f.write(struct.pack("!Q", len(data)))
    f.write(data)
    f.flush()


def _recv(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    n = struct.unpack("!Q", h)[0]
    data = f.read(n)
    return data if len(data) == n else None


def _on_cpu(signum, frame):
    os._exit(CPU_STATUS)


def _worker_main(rd, wr, init_blob, initializer, initargs, spawn, index):
    w = W.current
    w.in_worker = True
    sys.settrace(None)
    threading.settrace(None)
    w.threads = None
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, WORKER_CPU_S)
    mode = R.inst.mode
    limit = R.inst.limit
    R.inst.seed(f"worker:{w.run_seed}:{index}")
    R.inst.mode, R.inst.limit, R.inst.count = mode, limit, 0
    if mode not in ("fair",):
        R.inst.set_mode(mode, index * 7919 + 13)
    # np.random: the real fork leaves every worker with a copy of the parent's numpy generator; nothing to do
    if spawn:
        for m in [m for m in sys.modules if m == "pylattica" or m.startswith("pylattica.")]:
            del sys.modules[m]
        initializer, initargs = pickle.loads(init_blob)
    if initializer is not None:
        try:
            initializer(*initargs)
        except Exception:  # as the real worker: it ends
            os._exit(1)
    fr = _real_open(rd, "rb")
    fw = _real_open(wr, "wb")
    while True:
        data = _recv(fr)
        if data is None:
            os._exit(0)
        signal.setitimer(signal.ITIMER_PROF, WORKER_CPU_S)
        try:
            kind, func, args, kwds = pickle.loads(data)
            if kind == "map":
                value = [func(x) for x in args]
            elif kind == "starmap":
                value = [func(*x) for x in args]
            else:
                value = func(*args, **kwds)
            res = (True, value)
        except W.Violation as e:
            res = ("violation", (e.kind, e.message))
        except Exception as e:
            res = (False, ExceptionWithTraceback(e, e.__traceback__))
        except BaseException:
            os._exit(1)
        try:
            blob = _dumps(res)
        except Exception as e:
            wrapped = MaybeEncodingError(e, res[1])
            blob = _dumps((False, wrapped))
        _send(fw, blob)


class _Worker:
    __slots__ = ("index", "pid", "fr", "fw", "idle", "tasks", "dead")

    def __init__(self, pool, index):
        w = W.current
        c = _cfg()
        n = w.probes.get("forks", 0)
        w.probes["forks"] = n + 1
        self.index = index
        self.idle = True
        self.tasks = 0
        self.dead = False
        if c.start_fail_at is not None and n == c.start_fail_at:
            c.start_fail_at = None
            w.fault("worker_start_failure")
            w.ev(f"pool: start of worker {index} fails")
            import errno
            raise OSError(errno.EAGAIN, "Resource temporarily unavailable")
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        init_blob = None
        if pool._spawn:
            init_blob = _dumps((pool._initializer, pool._initargs))
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                _worker_main(r1, w2, init_blob, pool._initializer, pool._initargs, pool._spawn, n)
            except BaseException:
                pass
            finally:
                os._exit(3)
        os.close(r1)
        os.close(w2)
        self.pid = pid
        self.fw = _real_open(w1, "wb")
        self.fr = _real_open(r2, "rb")

    def kill(self):
        if self.pid is None:
            return None
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        return self.reap()

    def reap(self):
        if self.pid is None:
            return None
        _, st = os.waitpid(self.pid, 0)
        self.pid = None
        for f in (self.fw, self.fr):
            try:
                f.close()
            except OSError:
                pass
        return st


class _Hang(Exception):
    pass


class SimPool:
    """multiprocessing.pool.Pool under the simulator."""

    _thread_mode = False

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        w = W.current
        if processes is None:
            processes = _cfg().cpus
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if maxtasksperchild is not None and (not isinstance(maxtasksperchild, int) or maxtasksperchild <= 0):
            raise ValueError("maxtasksperchild must be a positive int or None")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self._processes = processes
        self._initializer = initializer
        self._initargs = tuple(initargs)
        self._max = maxtasksperchild
        self._ctx = context
        method = getattr(context, "_name", None) or (context.get_start_method() if context is not None else "fork")
        self._spawn = method in ("spawn", "forkserver") and not self._thread_mode
        self._state = "RUN"
        self._queue = []            # pending tasks (FIFO)
        self._done = []             # heap of (time, seq, job, idx, result)
        self._seq = 0
        self._lost = None
        self._workers = []
        self._broken_cb = None
        self._id = len(w.pools)
        w.pools.append(self)
        w.ev(f"pool{self._id}: {processes} workers requested ({method})")
        active = min(processes, max(1, _cfg().max_active))
        if not self._thread_mode:
            try:
                for i in range(active):
                    W.yield_point("pool:start")
                    self._workers.append(_Worker(self, i))
            except Exception:
                self._kill_all()
                self._state = "TERMINATE"
                raise
        else:
            if initializer is not None:
                initializer(*initargs)
            self._workers = [type("T", (), {"index": i, "idle": True, "tasks": 0, "dead": False, "pid": None})()
                             for i in range(active)]

    # -- life cycle ------------------------------------------------------------------------------------------------
    def _kill_all(self):
        for x in self._workers:
            if x.pid is not None:
                x.kill()
        self._workers = []

    def alive(self):
        """Worker processes that will keep running."""
        if self._state in ("TERMINATE",):
            return 0
        if self._state == "CLOSE":
            return 0
        return len([x for x in self._workers if x.pid is not None])

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"

    def terminate(self):
        if self._state != "TERMINATE":
            W.current.ev(f"pool{self._id}: terminate")
            self._state = "TERMINATE"
            self._queue.clear()
            self._done.clear()
            self._kill_all()

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        if self._state == "CLOSE":
            while self._queue or self._done:
                self._step()
            self._kill_all()

    def __enter__(self):
        self._check_running()
        return self

    def __exit__(self, exc_type, exc_val, exc_tb):
        self.terminate()

    def _check_running(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")

    # -- scheduling ------------------------------------------------------------------------------------------------
    def _respawn(self, x):
        pos = self._workers.index(x)
        self._workers[pos] = _Worker(self, x.index)
        return self._workers[pos]

    def _dispatch(self):
        w = W.current
        c = _cfg()
        ch = w.ch
        idle = [x for x in self._workers if x.idle]
        k = 0 if c.style < 2 else ch.draw(len(idle))
        x = idle[k]
        if not self._thread_mode and c.replace_permille and ch.flip(c.replace_permille):
            w.fault("idle_worker_replaced")
            w.ev(f"pool{self._id}: worker {x.index} dies idle and is replaced")
            x.kill()
            x = self._respawn(x)
        elif self._max is not None and x.tasks >= self._max and not self._thread_mode:
            x.kill()
            x = self._respawn(x)
        job, idx, payload, blob = self._queue.pop(0)
        x.tasks += 1
        n = w.probes.get("tasks", 0)
        w.probes["tasks"] = n + 1
        if c.style == 0:
            dur = 1.0
        elif c.style == 1:
            dur = 0.01
        elif c.style == 2:
            dur = 0.1 + ch.draw(8)
        else:
            dur = float(ch.log_between(1, 100000))
            if dur > 1000:
                w.fault("worker_stall")
        w.ev(f"pool{self._id}: task {idx} -> worker {x.index} ({dur:g}s)")
        c.decision_log.append((idx, x.index))
        if self._thread_mode:
            self._push(dur, job, idx, self._run_local(payload))
            return
        if blob is None:
            try:
                blob = _dumps(payload)
            except Exception as e:
                job._deliver(idx, False, e)
                return
        if c.kill_at is not None and n == c.kill_at:
            c.kill_at = None
            w.fault("worker_killed_mid_task")
            w.ev(f"pool{self._id}: worker {x.index} is killed while it works on task {idx}")
            x.kill()
            self._lost = "worker_death"
            if self._broken_cb:
                self._broken_cb()
                return
            self._respawn(x)
            return
        try:
            _send(x.fw, blob)
            data = _recv(x.fr)
        except (BrokenPipeError, OSError):
            data = None
        if data is None:
            st = x.reap()
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == CPU_STATUS:
                raise W.Violation("no_progress", "a worker process ran without end")
            w.ev(f"pool{self._id}: worker {x.index} ended by itself during task {idx} (status {st})")
            self._lost = "worker_exit"
            if self._broken_cb:
                self._broken_cb()
                return
            self._respawn(x)
            return
        x.idle = False
        self._push(dur, job, idx, data, x)

    def _run_local(self, payload):
        kind, func, args, kwds = payload
        try:
            if kind == "map":
                return (True, [func(a) for a in args])
            if kind == "starmap":
                return (True, [func(*a) for a in args])
            return (True, func(*args, **kwds))
        except Exception as e:
            return (False, e)

    def _push(self, dur, job, idx, data, worker=None):
        self._seq += 1
        heapq.heappush(self._done, (W.current.now + dur, self._seq, job, idx, data, worker))

    def _complete(self):
        w = W.current
        t, _, job, idx, data, x = heapq.heappop(self._done)
        if t > w.now:
            C.clock.advance(t - w.now)
            w.now = t
        if x is not None:
            x.idle = True
        if isinstance(data, bytes):
            try:
                ok, value = pickle.loads(data)
            except Exception:
                self._lost = "undecodable_result"
                w.ev(f"pool{self._id}: result of task {idx} cannot be decoded; lost")
                if self._broken_cb:
                    self._broken_cb()
                return
            if ok == "violation":
                raise W.Violation(*value)
        else:
            ok, value = data
        w.ev(f"pool{self._id}: task {idx} {'done' if ok else 'failed'} at {w.now:g}")
        job._deliver(idx, ok, value)

    def _step(self):
        """One scheduling decision; False if nothing can happen any more."""
        W.yield_point("pool:step")
        c = _cfg()
        can_start = bool(self._queue) and any(x.idle for x in self._workers)
        can_end = bool(self._done)
        if not can_start and not can_end:
            return False
        if can_start and can_end:
            if c.style == 0:
                start = True
            elif c.style == 1:
                start = False
            else:
                start = not W.current.ch.flip(400)
        else:
            start = can_start
        if start:
            self._dispatch()
        else:
            self._complete()
        return True

    def _wait(self, cond, deadline=None):
        w = W.current
        while not cond():
            if w.wait_hook is not None:
                w.wait_hook()
            if self._state == "TERMINATE":
                raise W.Violation("hang", "waiting for the result of a terminated pool")
            if deadline is not None and self._done and not self._queue and self._done[0][0] > deadline:
                C.clock.advance(max(0.0, deadline - w.now))
                return False
            if not self._step():
                if deadline is not None:
                    C.clock.advance(max(0.0, deadline - w.now))
                    return False
                if w.threads is not None and w.threads.others_runnable():
                    w.threads.force_switch("pool idle")
                    continue
                kind = {"worker_death": "hang_after_worker_death", "worker_exit": "hang_after_worker_exit",
                        "undecodable_result": "hang_after_undecodable_error"}.get(self._lost, "hang")
                raise W.Violation(kind, "the caller waits for ever: the task's result will never come "
                                  f"({self._lost or 'no task, no running worker'})")
        return True

    def _submit(self, job, tasks):
        self._check_running()
        for idx, payload in tasks:
            self._queue.append((job, idx, payload, None))

    # -- public interface ------------------------------------------------------------------------------------------
    def _map_job(self, kind, func, iterable, chunksize, callback=None, error_callback=None):
        self._check_running()
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._processes * 4)
            if extra:
                chunksize += 1
        if len(items) == 0:
            chunksize = 0
        job = _MapJob(self, len(items), chunksize, callback, error_callback)
        if items:
            chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
            self._submit(job, [(i, (kind, func, c, {})) for i, c in enumerate(chunks)])
        return job

    def map(self, func, iterable, chunksize=None):
        return self._map_job("map", func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._map_job("starmap", func, iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_job("map", func, iterable, chunksize, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_job("starmap", func, iterable, chunksize, callback, error_callback)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        job = _ApplyJob(self, callback, error_callback)
        self._submit(job, [(0, ("apply", func, tuple(args), dict(kwds or {})))])
        return job

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def _imap(self, func, iterable, chunksize, ordered):
        self._check_running()
        if chunksize < 1:
            raise ValueError(f"Chunksize must be 1+, not {chunksize:n}")
        items = list(iterable)
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        it = _IMap(self, len(chunks), ordered, chunksize > 1)
        self._submit(it, [(i, ("map", func, c, {})) for i, c in enumerate(chunks)])
        return it


class SimThreadPool(SimPool):
    _thread_mode = True

    def __init__(self, processes=None, initializer=None, initargs=()):
        super().__init__(processes, initializer, initargs)


class _Job:
    def __init__(self, pool, callback=None, error_callback=None):
        self._pool = pool
        self._cb, self._ecb = callback, error_callback
        self._ready = False
        self._success = True
        self._value = None

    def ready(self):
        return self._ready

    def successful(self):
        if not self._ready:
            raise ValueError(f"{self!r} not ready")
        return self._success

    def wait(self, timeout=None):
        if not self._ready:
            d = None if timeout is None else W.current.now + timeout
            self._pool._wait(lambda: self._ready, d)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._ready:
            raise multiprocessing.TimeoutError
        if self._success:
            return self._value
        raise self._value

    def _finish(self):
        self._ready = True
        if self._success and self._cb:
            self._cb(self._value)
        if not self._success and self._ecb:
            self._ecb(self._value)


class _ApplyJob(_Job):
    def _deliver(self, idx, ok, value):
        self._success, self._value = ok, value
        self._finish()


class _MapJob(_Job):
    def __init__(self, pool, length, chunksize, callback, error_callback):
        super().__init__(pool, callback, error_callback)
        self._value = [None] * length
        self._chunk = chunksize
        if chunksize <= 0:
            self._left = 0
            self._ready = True
        else:
            self._left = length // chunksize + bool(length % chunksize)

    def _deliver(self, idx, ok, value):
        self._left -= 1
        if ok and self._success:
            self._value[idx * self._chunk:(idx + 1) * self._chunk] = value
        elif not ok and self._success:
            self._success = False
            self._value = value
        if self._left == 0:
            self._finish()


class _IMap:
    def __init__(self, pool, n, ordered, flat):
        self._pool, self._n, self._ordered, self._flat = pool, n, ordered, flat
        self._got = {}
        self._arrived = []
        self._out = []
        self._next = 0

    def _deliver(self, idx, ok, value):
        self._got[idx] = (ok, value)
        self._arrived.append(idx)

    def __iter__(self):
        return self

    def next(self, timeout=None):
        if self._out:
            return self._out.pop(0)
        if self._next >= self._n:
            raise StopIteration
        d = None if timeout is None else W.current.now + timeout
        if self._ordered:
            if not self._pool._wait(lambda: self._next in self._got, d):
                raise multiprocessing.TimeoutError
            ok, value = self._got.pop(self._next)
        else:
            if not self._pool._wait(lambda: len(self._arrived) > 0, d):
                raise multiprocessing.TimeoutError
            ok, value = self._got.pop(self._arrived.pop(0))
        self._next += 1
        if not ok:
            raise value
        self._out = list(value)
        return self._out.pop(0)

    __next__ = next


# ---------------------------------------------------------------------------------------------------------------------
class SimFuture(concurrent.futures.Future):
    _ex = None

    def result(self, timeout=None):
        self._await(timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self._await(timeout)
        return super().exception(0)

    def _await(self, timeout):
        if not self.done():
            d = None if timeout is None else W.current.now + timeout
            if not self._ex._pool._wait(self.done, d):
                raise TimeoutError()


class _FutJob:
    def __init__(self, fut):
        self.fut = fut

    def _deliver(self, idx, ok, value):
        if self.fut.cancelled():
            return
        if ok:
            self.fut.set_result(value)
        else:
            self.fut.set_exception(value)


class SimExecutor(concurrent.futures.Executor):
    _pool_cls = SimPool

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None,
                 thread_name_prefix=""):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        n = max_workers or _cfg().cpus
        if self._pool_cls is SimPool:
            self._pool = SimPool(n, initializer, initargs, max_tasks_per_child, mp_context)
            self._pool._broken_cb = self._break
        else:
            self._pool = SimThreadPool(n, initializer, initargs)
        self._futs = []
        self._broken = False

    def _break(self):
        self._broken = True
        self._pool.terminate()
        for f in self._futs:
            if not f.done():
                f.set_exception(cfp.BrokenProcessPool("A process in the process pool was terminated abruptly"))

    def submit(self, fn, /, *args, **kwargs):
        if self._broken:
            raise cfp.BrokenProcessPool("broken")
        if self._pool._state != "RUN":
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture()
        f._ex = self
        self._futs.append(f)
        self._pool._submit(_FutJob(f), [(len(self._futs) - 1, ("apply", fn, args, kwargs))])
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *args) for args in zip(*iterables)]

        def it():
            for f in fs:
                yield f.result(timeout)
        return it()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for f in self._futs:
                if not f.done():
                    f.cancel()
            self._pool._queue.clear()
        if self._pool._state == "RUN":
            self._pool.close()
        if wait:
            self._pool.join()


class SimThreadExecutor(SimExecutor):
    _pool_cls = SimThreadPool

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        super().__init__(max_workers, None, initializer, initargs)


_real_as_completed = concurrent.futures.as_completed
_real_wait = concurrent.futures.wait


def _as_completed(fs, timeout=None):
    fs = list(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        yield from _real_as_completed(fs, timeout)
        return
    left = list(dict.fromkeys(fs))
    while left:
        done = [f for f in left if f.done()]
        if not done:
            left[0]._ex._pool._wait(lambda: any(f.done() for f in left))
            continue
        for f in done:
            left.remove(f)
            yield f


def _fwait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = set(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        return _real_wait(fs, timeout, return_when)
    for f in fs:
        f._await(timeout)
    return concurrent.futures._base.DoneAndNotDoneFutures(fs, set())


def _cpu_count(*_):
    return _cfg().cpus if W.current is not None else 8


def install():
    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if W.current is None:
            return _RealPool(processes, initializer, initargs, maxtasksperchild, context=self.get_context())
        return SimPool(processes, initializer, initargs, maxtasksperchild, context=self.get_context())
    multiprocessing.context.BaseContext.Pool = Pool
    multiprocessing.context.BaseContext.cpu_count = _cpu_count
    multiprocessing.Pool = multiprocessing.context._default_context.Pool
    multiprocessing.cpu_count = _cpu_count
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    os.cpu_count = _cpu_count
    os.sched_getaffinity = lambda pid: set(range(_cpu_count()))
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    cfp.ProcessPoolExecutor = SimExecutor
    concurrent.futures.ThreadPoolExecutor = SimThreadExecutor
    import concurrent.futures.thread as cft
    cft.ThreadPoolExecutor = SimThreadExecutor
    concurrent.futures.as_completed = _as_completed
    concurrent.futures.wait = _fwait


def live_workers(w):
    return sum(p.alive() for p in w.pools)


def reset(w):
    for p in w.pools:
        p._kill_all()
        p._state = "TERMINATE"
    w.pools = []

"""Simulated caller threads, interrupts and locks.

Threads are real threads; exactly one runs at a time.  Switches happen only at traced lines (or opcodes) of pylattica and
at simulated pool / file / clock operations, and only the seeded choices decide them.
"""
import _thread
import sys
import threading

from . import world as W

_RealLock = threading.Lock
_RealRLock = threading.RLock
_RealThread = threading.Thread


class _T:
    def __init__(self, i, fn):
        self.i = i
        self.fn = fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = "ready"     # ready / blocked / done
        self.cond = None
        self.value = None
        self.exc = None
        self.budget = 0
        self.seen = {}


class Abort(BaseException):
    pass


class Scheduler:
    STYLES = ((400, 50), (40, 200), (6, 300), (4000, 20))   # (largest quantum, switch permille at external points)

    def __init__(self, w, opcodes=None, fresh=300):
        self.w = w
        self.style = w.ch.pick(self.STYLES)
        # short turns first, or turns of any length everywhere
        self.even = w.ch.flip(350)
        # or turns that end only where a thread is for the first (or second) time: short stretches that run once and lie
        # far behind a loop are then as likely to be interrupted as the loop
        self.fresh = w.ch.pick((30, 100, 300, 10)) if w.ch.flip(fresh) else 0
        self.opcodes = w.ch.flip(150) if opcodes is None else opcodes
        self.threads = []
        self.cur = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.abort = False
        self.switches = 0
        self.events = 0

    def quantum(self):
        if self.fresh:
            return 1 << 60
        if self.even:
            return 1 + self.w.ch.draw(self.style[0])
        q = self.w.ch.log_between(0, self.style[0])
        return q if q else 1 << 60

    # -- tracing
    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(W.CODE_PREFIX):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            t = self.cur
            self.events += 1
            t.budget -= 1
            if self.fresh:
                at = (frame.f_code, frame.f_lasti if self.opcodes else frame.f_lineno)
                n = t.seen[at] = t.seen.get(at, 0) + 1
                if n <= 2 and self.w.ch.flip(self.fresh):
                    t.budget = 0
            if t.budget <= 0:
                self._switch(f"{frame.f_code.co_name}:{frame.f_lineno}" if not self.opcodes else frame.f_code.co_name)
        return self._local

    def external_point(self, what):
        if self.cur is None or threading.get_ident() != self.cur.ident:
            return
        if self.w.ch.flip(self.style[1]):
            self._switch(what)

    def _runnable(self, me):
        return [t for t in self.threads
                if t is not me and (t.state == "ready" or (t.state == "blocked" and t.cond()))]

    def others_runnable(self):
        return bool(self._runnable(self.cur))

    def force_switch(self, where):
        self._switch(where)

    def _switch(self, where):
        me = self.cur
        others = self._runnable(me)
        if not others:
            me.budget = self.quantum()
            return
        me.budget = self.quantum()
        nxt = others[self.w.ch.draw(len(others))]
        self.switches += 1
        self.w.nontrivial = True
        self.w.ev(f"switch t{me.i}->t{nxt.i} at {where}")
        self._hand(me, nxt)

    def _hand(self, me, nxt):
        self.cur = nxt
        nxt.sem.release()
        me.sem.acquire()
        if self.abort:
            raise Abort()

    # -- blocking used by SimLock
    def block_until(self, cond, where):
        me = self.cur
        while not cond():
            me.state, me.cond = "blocked", cond
            others = self._runnable(me)
            if not others:
                raise W.Violation("deadlock", f"every thread is blocked (at {where})")
            nxt = others[self.w.ch.draw(len(others))]
            self.w.ev(f"t{me.i} blocked at {where}, t{nxt.i} runs")
            self._hand(me, nxt)
            me.state = "ready"

    # -- running
    def _body(self, t):
        t.sem.acquire()
        t.ident = threading.get_ident()
        try:
            if self.abort:
                return
            sys.settrace(self._global)
            try:
                t.value = t.fn()
            finally:
                sys.settrace(None)
        except Abort:
            pass
        except W.Violation as e:
            t.exc = e
            self.abort = True
        except BaseException as e:
            t.exc = e
        finally:
            t.state = "done"
            others = [x for x in self.threads if x.state != "done"]
            if not others:
                self.main.release()
            else:
                run = self._runnable(t)
                if not run and not self.abort:
                    t.exc = W.Violation("deadlock", "every remaining thread is blocked")
                    self.abort = True
                if self.abort:
                    nxt = others[0]
                else:
                    nxt = run[self.w.ch.draw(len(run))]
                    self.w.ev(f"t{t.i} ends, t{nxt.i} runs")
                self.cur = nxt
                nxt.sem.release()

    def run(self, fns):
        """Runs the functions concurrently; returns [(value, exception)]."""
        self.threads = [_T(i, f) for i, f in enumerate(fns)]
        for t in self.threads:
            t.budget = self.quantum()
            t.ident = None
        real = [_RealThread(target=self._body, args=(t,), daemon=True) for t in self.threads]
        prev = self.w.threads
        self.w.threads = self
        for r in real:
            r.start()
        first = self.threads[self.w.ch.draw(len(self.threads))]
        self.cur = first
        first.sem.release()
        self.main.acquire()
        for r in real:
            r.join()
        self.w.threads = prev
        self.w.probe("thread_switches", self.switches)
        self.w.probe("traced_events", self.events)
        for t in self.threads:
            if isinstance(t.exc, (W.Violation, W.HarnessError)):
                raise t.exc
        return [(t.value, t.exc) for t in self.threads]


# ---------------------------------------------------------------------------------------------------------------------
class SimLock:
    """threading.Lock / RLock as created by pylattica code."""

    def __init__(self, reentrant=False):
        self._owner = None
        self._count = 0
        self._re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._re and self._owner == me:
            self._count += 1
            return True
        W.yield_point("lock")
        if self._owner is not None:
            if not blocking:
                return False
            w = W.current
            if w is None or w.threads is None or w.in_worker:
                raise W.Violation("deadlock", "a lock that nobody will release is acquired")
            if self._owner == me and not self._re:
                raise W.Violation("deadlock", "a thread waits for a lock it holds itself")
            if timeout is not None and timeout >= 0:
                w.threads.force_switch("lock timeout")
                if self._owner is not None:
                    return False
            else:
                w.threads.block_until(lambda: self._owner is None, "lock")
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._re and self._owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
        W.yield_point("unlock")

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == threading.get_ident()


def _from_code():
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(W.CODE_PREFIX)


def _Lock():
    return SimLock() if _from_code() else _RealLock()


def _RLock(*a, **k):
    return SimLock(True) if _from_code() else _RealRLock()


def install():
    threading.Lock = _Lock
    threading.RLock = _RLock


# ---------------------------------------------------------------------------------------------------------------------
class Interrupter:
    """Raises KeyboardInterrupt at the k-th traced line of pylattica in the calling thread, or (fresh) at the k-th one that
    was not passed before."""

    def __init__(self, w, at=None, wait_at=None, exc=KeyboardInterrupt, fresh=False):
        self.w = w
        self.at = at
        self.wait_at = wait_at
        self.n = 0
        self.waits = 0
        self.fired = None
        self.exc = exc
        self.seen = set() if fresh else None

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(W.CODE_PREFIX):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            if self.seen is not None:
                at = (frame.f_code, frame.f_lineno)
                if at in self.seen:
                    return self._local
                self.seen.add(at)
            self.n += 1
            if self.at is not None and self.n == self.at and self.fired is None:
                self.fired = f"{frame.f_code.co_name}:{frame.f_lineno}"
                self.w.fault("interrupt_at_line")
                self.w.ev(f"interrupt at {frame.f_code.co_name}")
                raise self.exc()
        return self._local

    def _wait(self):
        self.waits += 1
        if self.wait_at is not None and self.waits == self.wait_at and self.fired is None:
            self.fired = "pool wait"
            self.w.fault("interrupt_at_wait")
            self.w.ev("interrupt while waiting for workers")
            raise self.exc()

    def run(self, fn):
        prev = self.w.wait_hook
        self.w.wait_hook = self._wait
        sys.settrace(self._global)
        try:
            return fn()
        finally:
            sys.settrace(None)
            self.w.wait_hook = prev


def interrupter(w, top, distinct=80, exc=KeyboardInterrupt):
    """An Interrupter somewhere in something of unknown length: up to top lines, of which up to distinct are different."""
    if w.ch.flip(350):
        return Interrupter(w, at=1 + w.ch.draw(distinct), exc=exc, fresh=True)
    return Interrupter(w, at=w.ch.position(top), exc=exc)


def count_events(w, fn, fresh=False):
    """Runs fn in a forked copy of the process and returns (lines, waits) it takes; the original is not affected."""
    from . import fs as F
    it = Interrupter(w, fresh=fresh)

    def body():
        try:
            it.run(fn)
        except Exception:
            pass
        return (it.n, it.waits)
    out = F.in_child(body)
    return out[1] if out[0] == "done" else (1, 0)


def interrupter_for(w, fn, waiting):
    """An Interrupter somewhere in fn (which is rehearsed): while it waits for workers (with that chance), at any line it
    executes, or at any line it executes for the first time."""
    fresh = w.ch.flip(350)
    lines, waits = count_events(w, fn, fresh)
    if waits and w.ch.flip(waiting):
        return Interrupter(w, wait_at=1 + w.ch.draw(waits))
    return Interrupter(w, at=1 + w.ch.draw(max(1, lines)), fresh=fresh)

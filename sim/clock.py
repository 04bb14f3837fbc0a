"""Simulated clock."""
import datetime as _dt
import time as _time
import random as _r

from . import world as W

real_time = _time.time
real_perf = _time.perf_counter
real_monotonic = _time.monotonic
real_sleep = _time.sleep
_RealDT = _dt.datetime
_RealDate = _dt.date
_Random = _r.Random

BASE = 1_700_000_000.0


class Clock:
    MODES = ("frozen", "tick", "minutes", "jumps", "backwards")

    def __init__(self, mode="tick", seed=0, start=BASE):
        self.mode = mode
        self.wall = start
        self.mono = 1000.0
        self.rng = _Random(seed)
        self.reads = 0

    def read_wall(self):
        self.reads += 1
        m = self.mode
        if m == "tick":
            self.wall += 0.001
        elif m == "minutes":
            self.wall += 31.0
        elif m == "jumps":
            if self.rng.random() < 0.3:
                self.wall += self.rng.choice((-7200.0, -60.0, -1.0, 1.0, 59.0, 60.0, 3600.0, 86400.0 * 30))
        elif m == "backwards":
            self.wall -= 20.0
        return self.wall

    def read_mono(self):
        self.mono += 0.0001
        return self.mono

    def advance(self, dt):
        self.mono += dt
        if self.mode != "frozen":
            self.wall += dt
        if W.current is not None:
            W.current.now += dt


clock = Clock()


def _active():
    return W.current is not None


def _t():
    return clock.read_wall() if _active() else real_time()


def _t_ns():
    return int(_t() * 1e9)


def _mono():
    return clock.read_mono() if _active() else real_monotonic()


def _mono_ns():
    return int(_mono() * 1e9)


def _sleep(s):
    if not _active():
        return real_sleep(s)
    clock.advance(max(0.0, s))
    W.yield_point("sleep")


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, cls._real)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, cls._real)


class SimDateTime(_RealDT, metaclass=_Meta):
    _real = _RealDT

    def __new__(cls, *a, **k):
        return _RealDT(*a, **k)

    @classmethod
    def now(cls, tz=None):
        if not _active():
            return _RealDT.now(tz)
        return _RealDT.fromtimestamp(clock.read_wall(), tz)

    @classmethod
    def utcnow(cls):
        if not _active():
            return _RealDT.utcnow()
        return _RealDT.fromtimestamp(clock.read_wall(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class SimDate(_RealDate, metaclass=_Meta):
    _real = _RealDate

    def __new__(cls, *a, **k):
        return _RealDate(*a, **k)

    @classmethod
    def today(cls):
        if not _active():
            return _RealDate.today()
        return _RealDT.fromtimestamp(clock.read_wall()).date()


_real_localtime, _real_gmtime, _real_strftime = _time.localtime, _time.gmtime, _time.strftime


def install():
    _time.time = _t
    _time.time_ns = _t_ns
    _time.monotonic = _mono
    _time.monotonic_ns = _mono_ns
    _time.perf_counter = _mono
    _time.perf_counter_ns = _mono_ns
    _time.sleep = _sleep
    _time.localtime = lambda secs=None: _real_localtime(_t() if secs is None else secs)
    _time.gmtime = lambda secs=None: _real_gmtime(_t() if secs is None else secs)
    _time.strftime = lambda fmt, t=None: _real_strftime(fmt, _real_localtime(_t()) if t is None else t)
    _dt.datetime = SimDateTime
    _dt.date = SimDate


def begin_run():
    global clock
    clock = Clock()


def choose(w, modes=Clock.MODES):
    """Installs a clock policy for the run."""
    global clock
    mode = w.ch.pick(modes)
    clock = Clock(mode, w.ch.seed_value(), BASE + w.ch.draw(1000) * 7.0)
    if mode not in ("tick",):
        w.fault("clock_" + mode)
    return clock

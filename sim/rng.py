"""Simulated random sources: random.*, numpy.random.*, os.urandom."""
import os
import random
import numpy as np

from . import world as W

_RealRandom = random.Random
_urandom_rng = _RealRandom(0)
MODES = ("fair", "low", "high", "sticky", "alternate", "extreme", "twovalue", "mixed")


class SimRandom(_RealRandom):
    """A Mersenne twister whose uniform outcomes can be replaced by adversarial (still legal) ones."""

    def __init__(self, x=0):
        self.mode = "fair"
        self.count = 0
        self.limit = None
        self._aux = _RealRandom(0)
        self._last = 0.0
        super().__init__(x)

    def seed(self, a=None, version=2):
        if a is None:
            a = 0 if W.current is None else _urandom_rng.getrandbits(64)
        super().seed(a, version)
        if hasattr(self, "_aux"):
            self._aux.seed(repr(a))
            self._last = 0.0

    def set_mode(self, mode, seed=0):
        self.mode = mode
        self._aux = _RealRandom(seed)
        self._last = self._aux.random()

    def _tick(self):
        self.count += 1
        if self.limit is not None and self.count > self.limit:
            raise W.Violation("no_progress", f"more than {self.limit} random numbers were drawn")

    def _unit(self):
        """An outcome in [0,1) according to the mode."""
        m = self.mode
        a = self._aux
        if m == "mixed":
            m = a.choice(("sticky", "extreme", "fair", "alternate", "fair"))
        if m == "low":
            return 0.0
        if m == "high":
            return 1.0 - 2.0 ** -53
        if m == "sticky":
            if a.random() < 0.15:
                self._last = a.random()
            return self._last
        if m == "alternate":
            self._last = 0.0 if self._last > 0.5 else 1.0 - 2.0 ** -53
            return self._last
        if m == "extreme":
            return a.choice((0.0, 1.0 - 2.0 ** -53))
        if m == "twovalue":
            return self._last if a.random() < 0.7 else (self._last + 0.5) % 1.0
        return a.random()

    def random(self):
        self._tick()
        if self.mode == "fair":
            return super().random()
        return self._unit()

    def getrandbits(self, k):
        self._tick()
        if self.mode == "fair":
            return super().getrandbits(k)
        return min((1 << k) - 1, int(self._unit() * (1 << k)))

    def _randbelow(self, n):
        if self.mode == "fair":
            if not n:
                return 0
            self._tick()
            k = n.bit_length()
            r = super().getrandbits(k)
            while r >= n:
                r = super().getrandbits(k)
            return r
        self._tick()
        return min(n - 1, int(self._unit() * n)) if n else 0


inst = SimRandom(0)
_FUNCS = ("seed random uniform triangular randint choice randrange sample shuffle choices normalvariate lognormvariate "
          "expovariate vonmisesvariate gammavariate gauss betavariate binomialvariate paretovariate weibullvariate "
          "getstate setstate getrandbits randbytes").split()

_np_choice = np.random.choice
_np_randint = np.random.randint
_np_default_rng = np.random.default_rng


def _sim_np_choice(a, size=None, replace=True, p=None):
    if inst.mode != "fair" and size is None and p is None:
        if isinstance(a, (int, np.integer)):
            return np.int64(inst._randbelow(int(a)))
        a = np.asarray(a)
        if a.ndim == 1 and len(a):
            return a[inst._randbelow(len(a))]
    inst._tick()
    return _np_choice(a, size, replace, p)


def _sim_np_randint(low, high=None, size=None, dtype=int):
    if inst.mode != "fair" and size is None:
        lo, hi = (0, low) if high is None else (low, high)
        return int(lo) + inst._randbelow(int(hi) - int(lo))
    inst._tick()
    return _np_randint(low, high, size, dtype)


def _sim_default_rng(seed=None):
    if seed is None and W.current is not None:
        seed = _urandom_rng.getrandbits(32)
    return _np_default_rng(seed)


_np_seed = np.random.seed
_np_RandomState = np.random.RandomState


def _sim_np_seed(seed=None):
    if seed is None and W.current is not None:
        seed = _urandom_rng.getrandbits(32)
    return _np_seed(seed)


class SimRandomClass(_RealRandom):
    """random.Random whose seed, when not given, comes from the simulated operating system."""

    def __init__(self, x=None):
        if x is None and W.current is not None:
            x = _urandom_rng.getrandbits(64)
        super().__init__(x)

    def seed(self, a=None, version=2):
        if a is None and W.current is not None:
            a = _urandom_rng.getrandbits(64)
        super().seed(a, version)


class SimRandomState(_np_RandomState):
    def __init__(self, seed=None):
        if seed is None and W.current is not None:
            seed = _urandom_rng.getrandbits(32)
        super().__init__(seed)


_real_urandom = os.urandom


def _sim_urandom(n):
    if W.current is None:
        return _real_urandom(n)
    return bytes(_urandom_rng.getrandbits(8) for _ in range(n))


def install():
    random._inst = inst
    for f in _FUNCS:
        if hasattr(inst, f):
            setattr(random, f, getattr(inst, f))
    np.random.choice = _sim_np_choice
    np.random.randint = _sim_np_randint
    np.random.default_rng = _sim_default_rng
    np.random.seed = _sim_np_seed
    np.random.RandomState = SimRandomState
    random.Random = SimRandomClass
    os.urandom = _sim_urandom
    random._urandom = _sim_urandom


def begin_run(seed):
    inst.mode = "fair"
    inst.limit = None
    inst.count = 0
    inst.seed(seed)
    np.random.seed(seed % (1 << 32))
    _urandom_rng.seed(seed)


def os_entropy(seed):
    """What the operating system hands out from here on (unseeded generators, uuids)."""
    _urandom_rng.seed(seed)


def choose_mode(w, modes=MODES):
    m = w.ch.pick(modes)
    inst.set_mode(m, w.ch.seed_value())
    if m != "fair":
        w.fault("rng_" + m)
    return m

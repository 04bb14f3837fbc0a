"""The single source of decisions of a simulated run: a recorded stream of bounded integers.

Random mode draws from a PRNG seeded by one string; replay mode reads a list (0 when it runs out).  Draw 0 is by
convention the simplest alternative (no fault, no preemption, smallest size), which makes generic shrinking work.
"""
import random as _random

_Random = _random.Random


class OutOfChoices(BaseException):
    """The run asked for absurdly many decisions (a harness problem or a runaway loop)."""


class Choices:
    LIMIT = 400_000

    def __init__(self, seed=None, replay=None):
        self._rng = _Random(seed) if replay is None else None
        self._replay = replay
        self.log = []
        self.seed = seed

    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if len(self.log) >= self.LIMIT:
            raise OutOfChoices()
        if self._replay is None:
            v = int(self._rng.random() * n)
        else:
            i = len(self.log)
            v = self._replay[i] if i < len(self._replay) else 0
            if v >= n:
                v = n - 1
            if v < 0:
                v = 0
        self.log.append(v)
        return v

    def flip(self, permille):
        """True with the given probability in 1/1000; draw 0 means False."""
        return self.draw(1000) >= 1000 - permille

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def between(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def weighted(self, *weights):
        """Index i with probability weights[i]/sum; 0 first."""
        v = self.draw(sum(weights))
        for i, w in enumerate(weights):
            if v < w:
                return i
            v -= w
        return len(weights) - 1

    def position(self, top):
        """A point of something of unknown length: near its beginning, or anywhere up to top."""
        return self.log_between(1, top) if self.flip(650) else 1 + self.draw(top)

    def log_between(self, lo, hi):
        """Roughly log-uniform integer in [lo, hi]; draw 0 gives lo."""
        span = hi - lo
        if span <= 0:
            return lo
        bits = span.bit_length()
        b = self.draw(bits + 1)
        if b == 0:
            return lo
        top = min(span, (1 << b) - 1)
        low = min(top, 1 << (b - 1))
        return lo + low + self.draw(top - low + 1)

    def shuffled(self, seq):
        """A permutation; all-zero draws give the identity."""
        src = list(seq)
        out = []
        while src:
            out.append(src.pop(self.draw(len(src))))
        return out

    def subset(self, seq, permille=500):
        return [x for x in seq if self.flip(permille)]

    def seed_value(self):
        return self.draw(1 << 30)

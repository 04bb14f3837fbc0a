"""rustworkx returns the neighbours of a node in an order that differs from call to call; the seed decides it here."""
import random
import rustworkx

from . import world as W

_R = random.Random
_rng = _R(0)
_Real = rustworkx.PyDiGraph
_RealU = rustworkx.PyGraph
mode = "random"


class SimDiGraph(_Real):
    def neighbors(self, node):
        out = sorted(super().neighbors(node))
        if W.current is not None:
            _rng.shuffle(out)
        return out


class SimGraph(_RealU):
    def neighbors(self, node):
        out = sorted(super().neighbors(node))
        if W.current is not None:
            _rng.shuffle(out)
        return out


def begin_run(seed):
    _rng.seed(seed)


def install():
    rustworkx.PyDiGraph = SimDiGraph
    rustworkx.PyGraph = SimGraph

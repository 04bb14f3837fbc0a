import gc
import itertools
import math

from pylattica.core import BasicController, SimulationState, SynchronousRunner
from pylattica.core.constants import LOCATION, SITE_ID
from pylattica.core.neighborhood_builders import (AnnularNeighborhoodBuilder, DistanceNeighborhoodBuilder, MotifNeighborhoodBuilder,
                                                  NeighborhoodBuilder, StochasticNeighborhoodBuilder)
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder
from pylattica.structures.square_grid.neighborhoods import (MooreNbHoodBuilder, PseudoHexagonalNeighborhoodBuilder2D,
                                                           PseudoHexagonalNeighborhoodBuilder3D,
                                                           PseudoPentagonalNeighborhoodBuilder, VonNeumannNbHood2DBuilder,
                                                           VonNeumannNbHood3DBuilder)

from sim import pool as P
from sim import rng as R
from sim import threads as T
from . import workloads as L

ID = "C14"
QUICK = 3000
THOROUGH = 40000
RULE = ("pseudohexagonal (2D, 3D), pseudopentagonal and user-made stochastic neighborhoods on square grids are queried many times, with and "
        "without distances, under fair and adversarial random sources, in the main process, in several threads and in the workers of "
        "parallel runs with any schedule; every answer is compared with independently computed alternatives. Non-trivial: an adversarial "
        "source, worker processes or threads.")

AX2 = [(1, 0), (0, 1), (-1, 0), (0, -1)]
AX3 = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]


def hex2():
    return [AX2 + [(1, s), (-1, -s)] for s in (1, -1)]


def hex3():
    return [AX3 + [(1, a, b), (-1, -a, -b)] for a in (1, -1) for b in (1, -1)]


def pent():
    out = []
    for axis in (0, 1):
        for side in (1, -1):
            alt = []
            for t in (-1, 0, 1):
                v = [0, 0]
                v[axis], v[1 - axis] = side, t
                alt.append(tuple(v))
            for t in (-1, 1):
                v = [0, 0]
                v[1 - axis] = t
                alt.append(tuple(v))
            out.append(alt)
    return out


def offsets(dim, r):
    return [v for v in itertools.product(range(-r, r + 1), repeat=dim) if any(v)]


class PerSite(NeighborhoodBuilder):
    """A user's builder: some sites have the one set of offsets, the others another."""

    def __init__(self, salt, few, first, second):
        self.salt, self.few, self.first, self.second = salt, few, first, second

    def offsets(self, sid):
        return self.first if (sid * 7 + self.salt) % self.few == 0 else self.second

    def get_neighbors(self, curr_site, struct):
        loc = curr_site[LOCATION]
        return [(struct.id_at(tuple(a + b for a, b in zip(loc, v))), round(math.hypot(*v), 2)) for v in self.offsets(curr_site[SITE_ID])]


def gen_alternative(ch, dim, room, shared=None):
    """(builder, offsets or a function that gives the offsets of a site)"""
    k = ch.draw(6)
    if k == 5:
        vs = shared or ch.shuffled(offsets(dim, room))[:ch.between(1, 5)]
        b = PerSite(ch.draw(30), ch.pick((2, 3, 9, 30)), ch.shuffled(offsets(dim, room))[:ch.between(0, 4)], vs)
        return b, b.offsets
    if k == 0:
        pool = offsets(dim, room)
        vs = ch.shuffled(pool)[:ch.between(1, 6)]
        return MotifNeighborhoodBuilder(list(vs)), vs
    if k == 1:
        return MooreNbHoodBuilder(1, dim), offsets(dim, 1)
    if k == 2:
        b = VonNeumannNbHood2DBuilder(room) if dim == 2 else VonNeumannNbHood3DBuilder(room)
        return b, [v for v in offsets(dim, room) if sum(map(abs, v)) <= room]
    if k == 3:
        cut = ch.pick((1.1, 1.5, 1.8)) if room == 1 else ch.pick((1.1, 1.5, 2.1, 2.3))
        cut = min(cut, room + 0.9)
        return DistanceNeighborhoodBuilder(cut), [v for v in offsets(dim, room) if math.hypot(*v) < cut]
    lo, hi = (0.5, 1.1) if room == 1 else ch.pick(((0.5, 1.1), (1.1, 2.1), (1.5, 2.3)))
    return AnnularNeighborhoodBuilder(lo, hi), [v for v in offsets(dim, room) if lo < math.hypot(*v) < hi]


class Ask(BasicController):
    def __init__(self, nb):
        self.nb = nb

    def get_state_update(self, site_id, prev_state):
        wts = site_id % 2 == 0
        return {"q": [list(x) if wts else x for x in self.nb.neighbors_of(site_id, wts)] if wts
                else list(self.nb.neighbors_of(site_id))}


def run(w):
    prev = case(w)
    while w.ch.flip(250):
        # another neighborhood in the same process: of the same builder for another grid, of another builder for a grid with as many sites
        w.nontrivial = True
        if w.ch.flip(300):
            prev = prev[:2]
            gc.collect()
        prev = case(w, prev)


def case(w, prev=None):
    ch = w.ch
    kind = ch.weighted(3, 2, 3, 4)
    same_builder = prev is not None and len(prev) > 2 and ch.flip(600)
    if same_builder:
        kind = prev[2]
    dim = 3 if kind == 1 else 2 if kind in (0, 2) else ch.pick((2, 2, 3))
    room = 1 if kind < 3 or dim == 3 else ch.pick((1, 2))
    if same_builder:
        dim, room = prev[0], prev[3]
    size = tuple(2 * room + 1 + ch.draw(3 if dim == 2 else 2) for _ in range(dim))
    if prev is not None and prev[0] == dim and ch.flip(500):
        n = math.prod(prev[1])
        shapes = [x for x in itertools.product(range(2 * room + 1, n + 1), repeat=dim) if math.prod(x) == n]
        size = ch.pick([x for x in shapes if x != prev[1]] or shapes or [size])
    struct = (SimpleSquare2DStructureBuilder if dim == 2 else SimpleSquare3DStructureBuilder)().build(size)
    at = {s: tuple(int(round(float(x))) for x in struct.site_location(s)) for s in struct.site_ids}
    ext = tuple(max(a[i] for a in at.values()) + 1 for i in range(dim))
    ids = {a: s for s, a in at.items()}
    if same_builder:
        builder, alts, outcomes = prev[4:]
    elif kind == 0:
        builder, alts = PseudoHexagonalNeighborhoodBuilder2D(), hex2()
    elif kind == 1:
        builder, alts = PseudoHexagonalNeighborhoodBuilder3D(), hex3()
    elif kind == 2:
        builder, alts = PseudoPentagonalNeighborhoodBuilder(), pent()
    else:
        shared = ch.shuffled(offsets(dim, room))[:3] if ch.flip(600) else None
        many = ch.between(5, 24) if ch.flip(80) else ch.between(1, 4)
        parts = [gen_alternative(ch, dim, room, shared) for _ in range(many)]
        alts = [v for _, v in parts]
        if len(parts) > 2 and ch.flip(200):
            # an alternative that is itself stochastic
            cut = ch.between(1, len(parts) - 1)
            outcomes = max(cut + 1, (cut + 1) * (len(parts) - cut))
            builder = StochasticNeighborhoodBuilder([b for b, _ in parts[:cut]] +
                                                    [StochasticNeighborhoodBuilder([b for b, _ in parts[cut:]])])
        else:
            outcomes = len(parts)
            builder = StochasticNeighborhoodBuilder([b for b, _ in parts])
    if kind < 3 and not same_builder:
        outcomes = len(alts)
    nb = builder.get(struct)
    name = type(builder).__name__

    def answers(sid, weights):
        out = []
        for alt in alts:
            a = []
            for v in (alt(sid) if callable(alt) else alt):
                t = ids[tuple((p + d) % e for p, d, e in zip(at[sid], v, ext))]
                a.append((t, round(math.hypot(*v), 2)) if weights else t)
            out.append(sorted(a))
        return out
    table = {(s, k): answers(s, k) for s in at for k in (False, True)}
    modes = ch.flip(500)
    mode = R.choose_mode(w) if modes else "fair"
    if mode == "fair":
        R.inst.set_mode("fair")
        R.inst.seed(ch.seed_value())
    w.sample = ("" if prev is None else "then ") + f"{name} with {len(alts)} alternatives on a grid of {size}, source {mode}"
    w.ev(w.sample)

    def judge(sid, weights, got, where):
        try:
            g = sorted((int(x[0]), round(float(x[1]), 2)) if weights else int(x) for x in got)
        except Exception:
            w.fail("malformed", f"{w.sample}, {where}: query of site {sid} (weights={weights}) returned {got!r}")
        for j, x in enumerate(table[sid, weights]):
            if x == g:
                return j
        w.fail("no_alternative", f"{w.sample}, {where}: site {sid} (weights={weights}) has neighbors {g}; the alternatives are "
               f"{table[sid, weights]}")

    sids = list(at)
    style = ch.weighted(4, 3, 2)
    if style == 0:
        for _ in range(60):
            s, k = ch.pick(sids), bool(ch.draw(2))
            got = nb.neighbors_of(s, include_weights=k) if ch.flip(700) else nb.neighbors_of(s, k)
            judge(s, k, got, "main process")
            if ch.flip(100):
                got.append(99999)        # the caller owns the list
    elif style == 1:
        P.choose_config(w)
        w.pool_cfg.max_active = min(w.pool_cfg.max_active, 4)
        st = SimulationState.from_struct(struct)
        res = SynchronousRunner(parallel=True, workers=ch.between(1, 5)).run(st, Ask(nb), ch.between(1, 4))
        w.nontrivial = True
        for k in range(1, len(res)):
            step = res.get_step(k)
            for s in sids:
                judge(s, s % 2 == 0, step.get_site_state(s)["q"], f"worker process, step {k}")
    else:
        def body(mine):
            def f():
                for s, k in mine:
                    judge(s, k, nb.neighbors_of(s, include_weights=k), "thread")
            return f
        plans = [[(ch.pick(sids), bool(ch.draw(2))) for _ in range(15)] for _ in range(ch.between(2, 3))]
        for _, e in T.Scheduler(w).run([body(p) for p in plans]):
            if e is not None:
                raise e
    if ch.flip(400):
        # every alternative occurs under a fair source (chance of a miss below 1e-13)
        R.inst.set_mode("fair")
        R.inst.seed(ch.seed_value())
        s = ch.pick(sids)
        distinct = [x for i, x in enumerate(table[s, False]) if x not in table[s, False][:i]]
        seen, last, again = [], None, False
        for _ in range(36 * outcomes):
            j = judge(s, False, nb.neighbors_of(s), "main process")
            again = again or table[s, False][j] == last
            last = table[s, False][j]
            if last not in seen:
                seen.append(last)
            if again and len(seen) == len(distinct):
                break
        w.check(again, "alternative_never", f"{w.sample}: site {s} never has the same alternative twice in a row in {36 * outcomes} queries")
        w.check(len(seen) == len(distinct), "alternative_never", f"{w.sample}: of the {len(distinct)} alternatives of site {s} only "
                f"{len(seen)} occur under a fair random source; never: {[x for x in distinct if x not in seen]}")
        w.probe("coverage_tests")
    return dim, size, kind, room, builder, alts, outcomes

import copy
import gc
import itertools
import math

from pylattica.core import AsynchronousRunner, SimulationState, SynchronousRunner
from pylattica.core.neighborhood_builders import DistanceNeighborhoodBuilder, MotifNeighborhoodBuilder, StochasticNeighborhoodBuilder
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC, VACANT
from pylattica.structures.square_grid import (GrowthSetup, MooreNbHoodBuilder, PseudoHexagonalNeighborhoodBuilder2D,
                                              PseudoHexagonalNeighborhoodBuilder3D, PseudoPentagonalNeighborhoodBuilder,
                                              SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder,
                                              VonNeumannNbHood2DBuilder, VonNeumannNbHood3DBuilder)
from pylattica.models.growth import GrowthController  # noqa (importing it first fails: circular import)
from pylattica.structures.square_grid.grid_setup import DiscreteGridSetup

from sim import pool as P
from sim import rng as R
from sim import threads as T
from . import workloads as L
from .C14 import hex2, hex3, offsets, pent

ID = "C15"
QUICK = 2500
THOROUGH = 35000
RULE = ("growth from random layouts over 2D and 3D grids with Moore, von Neumann, distance, user-made, stochastic neighborhoods, serial, parallel "
        "under any worker schedule, and asynchronous, one after the other or several in threads, under fair and adversarial random sources; every recorded step is checked against the "
        "rule. Growth set-ups of any request. Non-trivial: a parallel run, an adversarial source, or a stochastic neighborhood.")


def neighborhoods(ch, dim):
    """(builder, list of alternatives (offsets), stochastic?, fills everything?)"""
    k = ch.weighted(4, 4, 2, 2, 3, 1)
    if k == 0:
        s = ch.pick((1, 1, 2))
        return MooreNbHoodBuilder(s, dim), [offsets(dim, s)], False, True
    if k == 1:
        s = ch.pick((1, 1, 2))
        b = VonNeumannNbHood2DBuilder(s) if dim == 2 else VonNeumannNbHood3DBuilder(s)
        return b, [[v for v in offsets(dim, s) if sum(map(abs, v)) <= s]], False, True
    if k == 2:
        cut = ch.pick((1.1, 1.5, 2.1))
        return DistanceNeighborhoodBuilder(cut), [[v for v in offsets(dim, 2) if math.hypot(*v) < cut]], False, False
    if k == 3:
        vs = ch.shuffled(offsets(dim, 1))[:ch.between(1, 5)]
        return MotifNeighborhoodBuilder(list(vs)), [vs], False, False
    if k == 4:
        if dim == 3:
            return PseudoHexagonalNeighborhoodBuilder3D(), hex3(), True, False
        if ch.flip(500):
            return PseudoHexagonalNeighborhoodBuilder2D(), hex2(), True, False
        return PseudoPentagonalNeighborhoodBuilder(), pent(), True, False
    a, b = (ch.shuffled(offsets(dim, 1))[:ch.between(1, 4)] for _ in range(2))
    return StochasticNeighborhoodBuilder([MotifNeighborhoodBuilder(list(x)) for x in (a, b)]), [a, b], True, False


def geometry(struct, dim):
    at = {s: tuple(int(round(float(x))) for x in struct.site_location(s)) for s in struct.site_ids}
    ext = tuple(max(a[i] for a in at.values()) + 1 for i in range(dim))
    return at, ext, {a: s for s, a in at.items()}


def allowed(occ, sid, table, bg):
    """Values the site may take in one application of the rule."""
    if occ[sid] != bg:
        return {occ[sid]}
    out = set()
    for nbs in table[sid]:
        counts = {}
        for n in nbs:
            if occ[n] != bg:
                counts[occ[n]] = counts.get(occ[n], 0) + 1
        if not counts:
            out.add(bg)
        else:
            m = max(counts.values())
            out |= {p for p, c in counts.items() if c == m}
    return out


def source(w):
    mode = R.choose_mode(w) if w.ch.flip(400) else "fair"
    if mode == "fair":
        R.inst.set_mode("fair")
        R.inst.seed(w.ch.seed_value())
    return mode


def growth(w):
    prev = one_growth(w)
    while w.ch.flip(200):
        w.nontrivial = True
        gc.collect()
        prev = one_growth(w, prev)


def one_growth(w, like=None):
    g = Growth(w, like)
    P.choose_config(w)
    w.pool_cfg.max_active = min(w.pool_cfg.max_active, 5)
    w.sample = ("" if like is None else "then ") + g.desc
    w.ev(w.sample)
    g.check(g.run())
    return g.size


def together(w):
    games = [Growth(w) for _ in range(w.ch.between(2, 3))]
    P.choose_config(w)
    w.pool_cfg.max_active = min(w.pool_cfg.max_active, 4)
    w.sample = "concurrently: " + " | ".join(g.desc for g in games)
    w.ev(w.sample)
    sched = T.Scheduler(w)
    for g, (res, e) in zip(games, sched.run([g.run for g in games])):
        if e is not None:
            raise e
        g.check(res)
    w.nontrivial = sched.switches > 0


class Growth:
    def __init__(self, w, like=None):
        ch = w.ch
        self.w = w
        dim = ch.pick((2, 2, 3))
        size = tuple(ch.between(3, 7 if dim == 2 else 4) for _ in range(dim))
        if like is not None and ch.flip(600):
            dim, n = len(like), math.prod(like)
            shapes = [x for x in itertools.product(range(3, n + 1), repeat=dim) if math.prod(x) == n]
            size = ch.pick([x for x in shapes if x != like] or shapes)
        self.size = size
        struct = (SimpleSquare2DStructureBuilder if dim == 2 else SimpleSquare3DStructureBuilder)().build(size)
        self.at, ext, ids = geometry(struct, dim)
        at = self.at
        builder, alts, stoch, _ = neighborhoods(ch, dim)
        self.table = {s: [{ids[tuple((p + d) % e for p, d, e in zip(at[s], v, ext))] for v in alt} - {s} for alt in alts] for s in at}
        self.bg = bg = ch.pick((VACANT, "bg"))
        phases = list("abcdefghijklmno")[:ch.between(5, 15) if ch.flip(150) else ch.between(1, 3)]
        if bg != VACANT and ch.flip(250):
            phases[ch.draw(len(phases))] = VACANT      # not the background here, a phase like any other
        if ch.flip(80):
            phases[ch.draw(len(phases))] = ""
        density = ch.pick((100, 30, 300, 600, 0, 900))
        self.state = st = SimulationState()
        for s in struct.site_ids:
            d = {OCC: ch.pick(phases) if ch.flip(density) else bg}
            if ch.flip(50):
                d["note"] = s
            st.set_site_state(s, d)
        if density and not ch.flip(50):
            st.set_site_state(ch.pick(struct.site_ids), {OCC: ch.pick(phases)})
        self.mode = ("parallel", "serial", "async")[ch.weighted(5, 3, 2)]
        src = source(w)
        if len(phases) > 1 and ch.flip(150):
            known = phases[:ch.between(1, len(phases) - 1)]     # the layout has phases the phase set does not list
        else:
            known = phases
        kw = {} if bg == VACANT and ch.flip(500) else {"background_phase": bg}
        if alts == [offsets(dim, 1)] and ch.flip(300):
            self.ctrl = GrowthController(PhaseSet(known), struct, **kw)
        else:
            self.ctrl = GrowthController(PhaseSet(known), struct, nb_builder=builder, **kw)
        self.steps = ch.between(1, 6) if self.mode != "async" else ch.between(1, 25)
        self.workers = ch.pick((None, 1, 2, 3, 5))
        self.desc = f"{self.mode} growth, {type(builder).__name__}, grid {size}, {self.steps} steps, density {density}, source {src}"
        w.nontrivial = w.nontrivial or self.mode == "parallel" or stoch or src != "fair"

    def run(self):
        if self.mode == "async":
            return AsynchronousRunner().run(self.state, self.ctrl, self.steps)
        return SynchronousRunner(parallel=self.mode == "parallel", workers=self.workers).run(self.state, self.ctrl, self.steps)

    def check(self, res, what=""):
        w, at, table, bg = self.w, self.at, self.table, self.bg
        desc = what + self.desc
        w.check(len(res) == self.steps + 1, "wrong_length", f"{desc}: {len(res)} states recorded")
        prev = L.plain(res.get_step(0))[0]
        w.check(prev == L.plain(self.state)[0], "wrong_start", f"{desc}: step 0 is not the starting state")
        for k in range(1, len(res)):
            cur = L.plain(res.get_step(k))[0]
            occ = {s: d[OCC] for s, d in prev.items()}
            w.check(set(cur) == set(prev), "sites_changed", f"{desc}: step {k} has other sites")
            changed = 0
            for s in at:
                new = cur[s].get(OCC)
                rest_same = {x: y for x, y in cur[s].items() if x != OCC} == {x: y for x, y in prev[s].items() if x != OCC}
                w.check(rest_same, "other_state_changed", f"{desc}: step {k} changes other values of site {s}: {prev[s]} -> {cur[s]}")
                if self.mode == "async" and new == occ[s]:
                    continue
                ok = allowed(occ, s, table, bg)
                changed += new != occ[s]
                w.check(new in ok, "occupied_changed" if occ[s] != bg else "not_majority",
                        lambda: f"{desc}: step {k}, site {at[s]}: {occ[s]} becomes {new}; allowed: {sorted(ok)}; neighbors hold "
                                f"{[sorted(str(occ[n]) for n in alt) for alt in table[s]]}")
            if self.mode == "async":
                w.check(changed <= 1, "several_changed", f"{desc}: step {k} changes {changed} sites")
            prev = cur


def setup(w):
    ch = w.ch
    dim = ch.pick((2, 3))
    size = ch.pick((3, 1, 2, 4, 5, 6, 7) if dim == 2 else (4, 1, 2, 3, 5, 4))
    builder, alts, stoch, fills = neighborhoods(ch, dim)
    slow = ch.flip(250)
    if slow:
        # what takes longest to fill: steps along one axis at a time, from one place
        builder, fills, stoch = (VonNeumannNbHood2DBuilder if dim == 2 else VonNeumannNbHood3DBuilder)(1), True, False
    if ch.flip(15):
        dim, size = ch.pick(((2, 26), (2, 33), (2, 40), (3, 9)))
        fills = stoch = False
        if ch.flip(700):
            fills, builder = True, MooreNbHoodBuilder(1, dim) if ch.flip(500) else (
                VonNeumannNbHood2DBuilder if dim == 2 else VonNeumannNbHood3DBuilder)(1)
        else:
            builder = MotifNeighborhoodBuilder([(1,) + (0,) * (dim - 1), (-1,) + (0,) * (dim - 1)])
        w.probe("large_set_ups")
    total = size ** dim
    buffer = ch.pick((1, 2, None, 0))
    n = min(ch.pick((1, 1, 1, 1, 1, 2) if slow else (1, 1, 2, 3, 5, 0)), total)
    amts = {p: ch.between(1, 5) for p in "abc"[:ch.between(1, 3)]}
    src = source(w)
    P.choose_config(w)
    w.pool_cfg.max_active = min(w.pool_cfg.max_active, 4)
    w.sample = f"growth set-up: size={size} dim={dim} seeds={n} amounts={amts} buffer={buffer} {type(builder).__name__} source {src}"
    w.ev(w.sample)
    seeds = []
    real = DiscreteGridSetup.setup_random_sites

    def spy(self, *a, **k):
        r = real(self, *a, **k)
        seeds.append(copy.deepcopy(L.plain(r.state)[0]))
        return r
    DiscreteGridSetup.setup_random_sites = spy
    try:
        sim = GrowthSetup(PhaseSet(list(amts) + ["bg"]), dim=dim).grow(size, n, "bg", dict(amts), builder, buffer=buffer)
    except RuntimeError as e:
        if seeds:
            raise
        w.probe("refused_RuntimeError")
        return
    finally:
        DiscreteGridSetup.setup_random_sites = real
    w.nontrivial = True
    o = {s: d[OCC] for s, d in L.plain(sim.state)[0].items()}
    w.check(sorted(o) == sorted(sim.structure.site_ids) and len(o) == total, "wrong_size",
            f"{w.sample}: {len(o)} sites in the state, {len(sim.structure.site_ids)} in the structure, {total} expected")
    w.check(all(v == "bg" or v in amts for v in o.values()), "wrong_phase", f"{w.sample}: {sorted(set(o.values()))}")
    if len(seeds) == 1:
        placed = {s: d[OCC] for s, d in seeds[0].items() if d[OCC] != "bg"}
        for s, p in placed.items():
            w.check(o[s] == p, "seed_changed", f"{w.sample}: seed site {s} was {p} and is {o[s]} in the end")
        w.probe("seeds_kept")
    if fills and n >= 1:
        left = [s for s in o if o[s] == "bg"]
        w.check(not left, "background_left", f"{w.sample}: {len(left)} of {total} sites are still background")
    if n == 0:
        w.check(set(o.values()) == {"bg"}, "from_nothing", f"{w.sample}: sites are occupied without any seed")


def run(w):
    (growth, setup, together)[w.ch.weighted(7, 4, 2)](w)

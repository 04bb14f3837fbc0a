import json
import os
import random
import subprocess
import sys

import numpy as np

from pylattica.core import AsynchronousRunner, BasicController, SimulationState, StructureBuilder, SynchronousRunner
from pylattica.core.lattice import Lattice
from pylattica.core.neighborhood_builders import (AnnularNeighborhoodBuilder, DistanceNeighborhoodBuilder, MotifNeighborhoodBuilder,
                                                  SiteClassNeighborhoodBuilder, StochasticNeighborhoodBuilder)
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC, VACANT
from pylattica.models.game_of_life.controller import GameOfLifeController
from pylattica.structures.square_grid import (GrowthSetup, MooreNbHoodBuilder, PseudoHexagonalNeighborhoodBuilder2D,
                                              PseudoHexagonalNeighborhoodBuilder3D, PseudoPentagonalNeighborhoodBuilder,
                                              SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder,
                                              VonNeumannNbHood2DBuilder, VonNeumannNbHood3DBuilder)
from pylattica.models.growth import GrowthController  # noqa (importing it first fails: circular import)
from pylattica.structures.square_grid.grid_setup import DiscreteGridSetup

from sim import clock as C
from sim import graph as G
from sim import pool as P
from sim import rng as R
from . import workloads as L
from .C14 import offsets

ID = "C17"
QUICK = 700
THOROUGH = 12000
RULE = ("a random program (structures, neighborhoods of every kind, random layouts, growth set-ups, serial, parallel and asynchronous growth, "
        "life-like automata and rules that draw random numbers) is executed from one seed two or three times in one process under different "
        "worker schedules, CPU counts, clocks, graph hash orders and operating-system entropy, with unrelated simulations in between; then a "
        "part of the programs again in fresh interpreters under other string hash seeds. The recorded outputs must be equal. Non-trivial: "
        "every run (the executions always differ in schedule and hash order).")
DIM_BUILDERS = {2: SimpleSquare2DStructureBuilder, 3: SimpleSquare3DStructureBuilder}


class Noisy(BasicController):
    """A rule that draws random numbers of its own."""

    def __init__(self, nb):
        self.nb = nb

    def get_state_update(self, site_id, prev_state):
        nbs = self.nb.neighbors_of(site_id)
        pool = [prev_state.get_site_state(n)[OCC] for n in nbs] or ["none"]
        v = random.choice(pool)
        if random.random() < 0.2:
            v = f"{v[:1]}{int(np.random.randint(0, 5))}"
        return {OCC: v}


class First(BasicController):
    """A rule that depends on the order of the neighbors only."""

    def __init__(self, nb, weights):
        self.nb, self.weights = nb, weights

    def get_state_update(self, site_id, prev_state):
        nbs = [n[0] if self.weights else n for n in self.nb.neighbors_of(site_id, self.weights)]
        if not nbs:
            return {}
        return {OCC: prev_state.get_site_state(nbs[0])[OCC], "last": nbs[-1]}


class Classes(StructureBuilder):
    def __init__(self, dim):
        self.lattice = Lattice([[1.0 if i == j else 0.0 for j in range(dim)] for i in range(dim)])
        self.motif = {"A": [tuple([0.25] * dim)], "B": [tuple([0.75] * dim)]}


def gen_builder(ch, dim, allow_random=True):
    k = ch.weighted(4, 3, 2, 2, 2, *((3, 2) if allow_random else ()))
    if k == 0:
        s = ch.pick((1, 1, 2)) if dim == 2 else 1
        return "Moore", lambda: MooreNbHoodBuilder(s, dim)
    if k == 1:
        s = ch.pick((1, 1, 2)) if dim == 2 else 1
        return "vonNeumann", lambda: (VonNeumannNbHood2DBuilder if dim == 2 else VonNeumannNbHood3DBuilder)(s)
    if k == 2:
        cut = ch.pick((1.1, 1.5, 2.1))
        return "distance", lambda: DistanceNeighborhoodBuilder(cut)
    if k == 3:
        vs = ch.shuffled(offsets(dim, 1))[:ch.between(1, 6)]
        return "motif", lambda: MotifNeighborhoodBuilder(list(vs))
    if k == 4:
        lo, hi = ch.pick(((0.5, 1.1), (0.9, 2.1), (1.1, 2.3)))
        return "annular", lambda: AnnularNeighborhoodBuilder(lo, hi)
    if k == 5:
        if dim == 3:
            return "hex3", PseudoHexagonalNeighborhoodBuilder3D
        return ("hex2", PseudoHexagonalNeighborhoodBuilder2D) if ch.flip(500) else ("pent", PseudoPentagonalNeighborhoodBuilder)
    a, b = (ch.shuffled(offsets(dim, 1))[:ch.between(1, 4)] for _ in range(2))
    return "stochastic", lambda: StochasticNeighborhoodBuilder([MotifNeighborhoodBuilder(list(x)) for x in (a, b)])


def record(state):
    s, g = L.plain(state)
    return s, g


def history(res):
    return [record(res.get_step(k)) for k in range(len(res))]


RANDOM_NB = ("hex2", "hex3", "pent", "stochastic")


class Op:
    """One operation of the program: drawn once, executed many times."""

    def __init__(self, ch):
        self.dim = ch.pick((2, 2, 2, 3))
        self.size = tuple(ch.between(3, 6 if self.dim == 2 else 3) for _ in range(self.dim))
        self.kind = ("nbs", "layout", "growth", "life", "async", "noisy", "first", "classes", "growsetup")[
            ch.weighted(4, 3, 5, 2, 3, 2, 3, 1, 2)]
        if self.kind == "life":
            self.dim, self.size = 2, tuple(ch.between(3, 6) for _ in range(2))
        self.phases = ["alpha", "beta", "gamma", "delta", "eps"][:ch.between(2, 5)]
        self.density = ch.pick((300, 150, 600))
        self.layout_seed_free = ch.flip(300)
        if self.kind == "growth":
            # parallel only with rules that draw nothing
            self.par = ch.flip(650)
            self.name, self.builder = gen_builder(ch, self.dim, not self.par)
        elif self.kind == "first":
            self.par = ch.flip(500)
            self.name, self.builder = gen_builder(ch, self.dim, not self.par)
        elif self.kind == "growsetup":
            self.par = True
            self.name, self.builder = gen_builder(ch, self.dim, False)
        else:
            self.par = self.kind == "life" and ch.flip(500)
            self.name, self.builder = gen_builder(ch, self.dim)
        self.steps = ch.between(1, 4)
        self.runner_steps = ch.between(5, 40)
        self.layout = ch.draw(4)
        self.rule = ch.pick(("B3/S23", "B36/S23", "B2/S"))
        self.weights = ch.flip(400)
        self.count = ch.between(1, 5)
        self.buffer = ch.pick((1, None, 2))
        self.reuse = ch.flip(400)
        self.kept = {}
        self.rows = [ch.draw(1000) for _ in range(250)] if not self.layout_seed_free else None

    def once(self, key, make):
        """The object the user makes: a new one for each execution, or the same one again."""
        if not self.reuse:
            return make()
        if key not in self.kept:
            self.kept[key] = make()
        return self.kept[key]

    def desc(self):
        return f"{self.kind}({self.name}, {self.size}{', parallel' if self.par else ''})"

    def start(self, struct, bg=None):
        st = SimulationState()
        for j, s in enumerate(struct.site_ids):
            if self.rows is None:
                v = random.choice(self.phases) if bg is None or random.random() * 1000 < self.density else bg
            else:
                r = self.rows[j % 250]
                v = self.phases[r % len(self.phases)] if bg is None or r < self.density else bg
            st.set_site_state(s, {OCC: v})
        return st

    def execute(self, workers, cpus):
        k = self.kind
        if k == "classes":
            struct = Classes(self.dim).build(tuple(2 for _ in range(self.dim)))
            nb = SiteClassNeighborhoodBuilder({"A": DistanceNeighborhoodBuilder(1.01), "B": AnnularNeighborhoodBuilder(0.1, 1.2)}).get(struct)
            out = [[list(nb.neighbors_of(s)), [(a, round(b, 9)) for a, b in nb.neighbors_of(s, True)]] for s in struct.site_ids]
            st = self.start(struct, VACANT)
            res = SynchronousRunner(parallel=self.par, workers=workers).run(st, First(nb, self.weights), self.steps)
            return [out, history(res)]
        if k == "layout":
            setup = self.once("setup", lambda: DiscreteGridSetup(PhaseSet(self.phases), dim=self.dim))
            size = max(self.size)
            out = []
            if self.layout == 0:
                sim = setup.setup_noise(size, setup.phase_set.phases)
            elif self.layout == 1:
                sim = setup.setup_random_particles(size, 1.5, self.count, "bulk", setup.phase_set.phases)
            elif self.layout == 2:
                n = min(self.count, 2 if self.buffer == 1 else self.count if self.buffer is None else 1)
                sim = setup.setup_random_sites(size, n, "bulk", {p: 1.0 + i for i, p in enumerate(setup.phase_set.phases)},
                                               buffer=self.buffer)
            else:
                sim = setup.setup_noise(size, self.phases)
            return [record(sim.state), [random.random(), float(np.random.random())], out]
        if k == "growsetup":
            gs = self.once("setup", lambda: GrowthSetup(PhaseSet(self.phases), dim=self.dim))
            sim = gs.grow(max(self.size), 2, "bulk", {p: 1.0 for p in self.phases}, self.once("builder", self.builder), buffer=1)
            return [record(sim.state)]
        struct = self.once("struct", lambda: DIM_BUILDERS[self.dim]().build(self.size))
        if k == "life":
            st = SimulationState()
            for j, s in enumerate(struct.site_ids):
                alive = random.random() < 0.4 if self.rows is None else self.rows[j % 250] < 400
                st.set_site_state(s, {OCC: "alive" if alive else "dead"})
            return [history(SynchronousRunner(parallel=self.par, workers=workers).run(
                st, self.once("ctrl", lambda: GameOfLifeController(struct, self.rule)), self.steps))]
        nb = self.once("nb", lambda: self.once("builder", self.builder).get(struct))
        if k == "nbs":
            return [[[list(nb.neighbors_of(s)), [(a, round(float(b), 9)) for a, b in nb.neighbors_of(s, include_weights=True)],
                      list(nb.neighbors_of(s))] for s in struct.site_ids]]
        if k == "growth":
            ctrl = self.once("ctrl", lambda: GrowthController(PhaseSet(self.phases), struct, background_phase="bg", nb_builder=self.builder()))
            st = self.start(struct, "bg")
            res = SynchronousRunner(parallel=self.par, workers=workers).run(st, ctrl, self.steps)
            out = [history(res)]
            if self.name not in RANDOM_NB:
                # a different runner gives the same history
                other = SynchronousRunner(parallel=not self.par, workers=workers).run(st, ctrl, self.steps)
                out.append(history(other) == out[0])
                if not out[1]:
                    self.serial_parallel = (out[0], history(other))
            return out
        st = self.start(struct, "bg" if k == "async" else None)
        if k == "async":
            ctrl = self.once("ctrl", lambda: GrowthController(PhaseSet(self.phases), struct, background_phase="bg", nb_builder=self.builder()))
            res = AsynchronousRunner().run(st, ctrl, self.runner_steps)
            return [history(res), random.random()]
        if k == "noisy":
            res = (AsynchronousRunner() if self.par or self.weights else SynchronousRunner()).run(st, Noisy(nb), self.steps)
            return [history(res), random.random()]
        res = SynchronousRunner(parallel=self.par, workers=workers).run(st, First(nb, self.weights), self.steps)
        return [history(res)]


def first_difference(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {a!r:.80} / {b!r:.80}"
    if isinstance(a, dict):
        if list(a) != list(b) and sorted(map(repr, a)) != sorted(map(repr, b)):
            return f"{path}: keys {sorted(map(repr, a))} / {sorted(map(repr, b))}"
        for x in a:
            d = first_difference(a[x], b[x], f"{path}.{x}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} / {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r:.80} / {b!r:.80}"


def run(w):
    ch = w.ch
    ops = [Op(ch) for _ in range(ch.between(1, 3))]
    seed = ch.seed_value()
    mode, mseed = ("fair", 0) if ch.flip(700) else (ch.pick(("sticky", "twovalue", "mixed")), ch.seed_value())
    passes = ch.between(2, 3)
    workers = [ch.pick((None, 1, 2, 3, 5)) for _ in range(passes)]
    w.sample = f"{', '.join(o.desc() for o in ops)} executed {passes} times, source {mode}"
    w.ev(w.sample)
    w.nontrivial = True
    # everything below this line may differ between interpreters; what is recorded may not
    for _ in range(int(os.environ.get("VERIF_ENV", "0"))):
        ch.draw(1000)
    first = None
    for p in range(passes):
        env = ch.seed_value()
        G.begin_run(env)
        R.os_entropy(env + 1)
        C.choose(w)
        P.choose_config(w)
        w.pool_cfg.max_active = min(w.pool_cfg.max_active, 5)
        if p and ch.flip(400):
            o = Op(ch)
            w.ev(f"unrelated: {o.desc()}")
            try:
                o.execute(2, 2)
            except RuntimeError as e:
                w.ev(repr(e)[:60])
        R.inst.set_mode("fair")
        random.seed(seed)
        np.random.seed(seed % (1 << 32))
        if mode != "fair":
            R.inst.set_mode(mode, mseed)
        outs = []
        for o in ops:
            try:
                outs.append(o.execute(workers[p], None))
            except RuntimeError as e:     # no room for the sites: legal, and repeatable
                outs.append(["RuntimeError", str(e)])
            if getattr(o, "serial_parallel", None):
                d = first_difference(*o.serial_parallel)
                w.fail("serial_parallel", f"{o.desc()}: the series and parallel histories differ: {d}")
        w.ev(f"pass {p}: digest {L.crc(L.canon(outs))}")
        if first is None:
            first = outs
            w.value = L.crc(L.canon(outs))
        else:
            for o, x, y in zip(ops, first, outs):
                d = first_difference(x, y)
                w.check(d is None, "not_repeatable", lambda: f"{o.desc()}: executions 0 and {p} from seed {seed} differ at {d}")
        for o, x in zip(ops, outs):
            if o.kind == "nbs" and o.name not in RANDOM_NB:
                for i, (a, b, c) in enumerate(x[0]):
                    w.check(a == c, "order", f"{o.desc()}: site number {i} listed {a}, then {c}")


def values(a, base, n, hashseed, env, tag, pid=ID):
    log = os.path.join(base, f"values{tag}.json")
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_ENV=str(env))
    p = subprocess.run([sys.executable, "-m", "sim.driver", pid, "--tier", a.tier, "--seed", str(a.seed), "--runs", str(n), "--jobs",
                        str(a.jobs), "--no-evidence", "--no-post", "--log", log], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with open(log) as f:
        return p.returncode, json.load(f)


def compare(a, base, n, plan, pid=ID):
    got = [values(a, base, n, hs, env, t, pid) for t, (hs, env) in enumerate(plan)]
    out = []
    for t, (code, d) in enumerate(got[1:], 1):
        for i in sorted(d, key=int):
            ref = got[0][1].get(i)
            if ref and ref[0] == d[i][0] == "ok" and ref[3] != d[i][3]:
                out.append(("not_repeatable_across_processes",
                            f"run {i}: the same seeded program gave different outputs in interpreters with (string hash seed, schedule) "
                            f"{plan[0]} and {plan[t]}: digests {ref[3]} and {d[i][3]}"))
                return out, i
            if d[i][0] == "violation" and ref and ref[0] == "ok":
                out.append((d[i][1], f"run {i} under string hash seed and schedule {plan[t]}"))
                return out, i
    return out, None


def post(a, base, n):
    m = max(20, n // 4)
    plan = [(0, 0), (1, 1), (77, 3), (4242, 7)] if a.tier == "quick" else [(h, h % 5) for h in (0, 1, 2, 3, 77, 101, 4242, 9001)]
    bad, i = compare(a, base, m, plan)
    return {"violations": bad, "probes": {"programs_in_fresh_interpreters": m * len(plan)},
            "faults": {"other_string_hash_seed": m * (len(plan) - 1)},
            "replay": {"runs": int(i) + 1 if i is not None else m, "plan": plan, "seed": a.seed}}


def replay_extra(extra, a, base):
    a.seed = extra["seed"]
    bad, _ = compare(a, base, extra["runs"], [tuple(x) for x in extra["plan"]])
    return bad

import gc
import math

import numpy as np

from pylattica.core import BasicController, Simulation, SimulationState, StateAnalyzer, SynchronousRunner
from pylattica.core.lattice import Lattice
from pylattica.core.constants import LOCATION, SITE_CLASS, SITE_ID
from pylattica.core.neighborhood_builders import (AnnularNeighborhoodBuilder, DistanceNeighborhoodBuilder, MotifNeighborhoodBuilder,
                                                  SiteClassNeighborhoodBuilder)
from pylattica.core.structure_builder import StructureBuilder
from pylattica.discrete import DiscreteStepAnalyzer
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
from pylattica.structures.honeycomb import HoneycombNeighborhoodBuilder, HoneycombTilingBuilder
from pylattica.structures.square_grid import (MooreNbHoodBuilder, SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder,
                                              VonNeumannNbHood2DBuilder, VonNeumannNbHood3DBuilder)

from sim import fs as F
from sim import pool as P
from sim import threads as T
from . import workloads as L

ID = "C19"
QUICK = 1200
THOROUGH = 25000
RULE = ("one or two structures with fixed neighborhoods, states and filters; a plan of lookups, builds, reads, filters and updates is carried "
        "out in any order, repeatedly, by threads, in worker processes, with interrupted calls, changed answers and unrelated objects in "
        "between; every answer is compared with the one the same call gives as the only call in a process of its own. Non-trivial: "
        "threads, workers, an interrupt, an update or an unrelated object.")
PHASES = "pqr"


class Custom(StructureBuilder):
    pass


def can(x):
    """Comparable form of an answer."""
    if isinstance(x, np.ndarray):
        return can(x.tolist())
    if isinstance(x, dict):
        return ("d", sorted(((repr(k), can(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return ("l", [can(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("s", sorted(map(repr, x)))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (float, np.floating)):
        return round(float(x), 7) + 0.0
    if isinstance(x, np.integer):
        return int(x)
    return x if x is None or isinstance(x, (int, str)) else repr(x)


# ---------------------------------------------------------------------------------------------------------------------
class StructSpec:
    def __init__(self, ch, like=None, small=False):
        self.kind = like.kind if like else ("square2", "square3", "honey", "custom")[ch.weighted(5, 2, 2, 3)]
        if self.kind == "custom":
            if like:
                self.dim, self.cell, self.per, self.classes = like.dim, like.cell, like.per, like.classes
            else:
                self.dim = ch.between(1, 3)
                self.cell = tuple(ch.pick((1, 2, 0.5)) for _ in range(self.dim))
                self.per = tuple(bool(ch.draw(3)) for _ in range(self.dim))
                self.classes = ch.between(1, 3)
        else:
            self.dim = 3 if self.kind == "square3" else 2
            self.per = (True,) * self.dim
        top = {1: 4, 2: 3, 3: 2}[self.dim] if small else {1: 9, 2: 5, 3: 3}[self.dim]
        self.size = tuple(ch.between(2 if self.kind != "square2" else 3, top) for _ in range(self.dim))
        if like:
            n = math.prod(like.size)
            other = [tuple(reversed(like.size)), like.size, tuple([n] + [1] * (self.dim - 1))]
            self.size = ch.pick(other)

    def builder(self):
        if self.kind == "square2":
            return SimpleSquare2DStructureBuilder()
        if self.kind == "square3":
            return SimpleSquare3DStructureBuilder()
        if self.kind == "honey":
            return HoneycombTilingBuilder()
        c = self.cell
        motif = {"A": [tuple(0 for _ in c)]}
        if self.classes > 1:
            motif["B"] = [tuple(v * 0.5 for v in c)]
        if self.classes > 2:
            motif["C"] = [tuple(v * (0.25 if i == 0 else 0.75) for i, v in enumerate(c))]
        return Custom(Lattice([[c[i] if i == j else 0 for j in range(len(c))] for i in range(len(c))], self.per), motif)

    def __repr__(self):
        return f"{self.kind}{self.size}" + (f" cell {self.cell} periodic {self.per} {self.classes} classes" if self.kind == "custom" else "")


def gen_nb(ch, spec):
    """A recipe of a neighborhood builder for structures of that kind."""
    k = ch.draw(4)
    if spec.kind in ("square2", "square3"):
        if k == 0:
            return lambda: MooreNbHoodBuilder(1, spec.dim)
        if k == 1:
            return VonNeumannNbHood2DBuilder if spec.dim == 2 else lambda: VonNeumannNbHood3DBuilder(1)
        if k == 2:
            vs = [tuple(ch.between(-2, 2) for _ in range(spec.dim)) for _ in range(ch.between(1, 5))]
            return lambda: MotifNeighborhoodBuilder(list(vs))
    elif spec.kind == "honey":
        if k < 2:
            return HoneycombNeighborhoodBuilder
    elif k == 0:
        cuts = [ch.pick((0.6, 1.1, 2.1)) for _ in range(3)]
        return lambda: SiteClassNeighborhoodBuilder({c: DistanceNeighborhoodBuilder(x) for c, x in zip("ABC"[:spec.classes], cuts)})
    if ch.flip(500):
        lo, hi = ch.pick(((0.4, 1.1), (0.9, 1.6), (1.1, 2.3)))
        return lambda: AnnularNeighborhoodBuilder(lo, hi)
    cut = ch.pick((1.1, 1.6, 2.1))
    return lambda: DistanceNeighborhoodBuilder(cut)


class Setting:
    """What is shared: drawn once, built the same way any number of times."""

    def __init__(self, ch, like=None, only=None):
        """only: the kind of call everything is about; the objects are small then, so that many new ones can be used"""
        self.only = only
        self.specs = [StructSpec(ch, like.specs[0] if like else None, only is not None and ch.flip(800))]
        if not like and ch.flip(500 if only is None else 200):
            self.specs.append(StructSpec(ch, self.specs[0] if ch.flip(700) else None))
        self.nbs = [(i, gen_nb(ch, s)) for i, s in enumerate(self.specs) for _ in range(ch.between(1, 2))]
        self.values = ch.seed_value()

        for j, (i, make) in enumerate(list(self.nbs)):
            for x, sp in enumerate(self.specs):
                if x != i and sp.kind == self.specs[i].kind and sp.dim == self.specs[i].dim:
                    self.nbs.append((x, make))      # one builder for two structures

    def build(self, alone=False):
        return World(self, alone)

    def __repr__(self):
        return " and ".join(map(repr, self.specs)) + f", {len(self.nbs)} neighborhoods"


class World:
    def __init__(self, s, alone=False):
        self.builders = [x.builder() for x in s.specs]
        self.structs = [b.build(x.size) for b, x in zip(self.builders, s.specs)]
        self.lattices = [Lattice((st.lattice.matrix * 2).tolist(), st.lattice.periodic) for st in self.structs]
        made = {}
        self.nbb = [make() if alone else made.setdefault(id(make), make()) for _, make in s.nbs]
        if s.only in (None, 5):
            self.nbs = [b.get(self.structs[i]) for b, (i, _) in zip(self.nbb, s.nbs)]
        if alone:
            self.builders = [x.builder() for x in s.specs]
            self.nbb = [make() for _, make in s.nbs]
        self.states = []
        for i, st in enumerate(self.structs):
            state = SimulationState()
            for sid in st.site_ids:
                state.set_site_state(sid, {OCC: PHASES[L.crc(s.values, i, sid) % 3], "v": L.crc(s.values, i, sid, 1) % 4})
            self.states.append(state)
        self.filters = [StateAnalyzer(st) for st in self.structs]
        self.free = StateAnalyzer()
        self.steps = DiscreteStepAnalyzer()
        self.sims = [Simulation(a, b) for a, b in zip(self.states, self.structs)]


class Ask:
    """One call: text, and how to make it on a world."""

    def __init__(self, text, fn, sort=False):
        self.text, self.fn, self.sort = text, fn, sort

    def raw(self, world):
        try:
            return self.fn(world), None
        except Exception as e:
            return None, f"{type(e).__name__}"

    def form(self, got):
        v, e = got
        if e is not None:
            return ("raised", e)
        return can(sorted(v) if self.sort else v)


def every_neighbor(nb, struct):
    return [[sorted(x) if not isinstance(x, tuple) else x for x in [nb.neighbors_of(s, True)]] for s in struct.site_ids]


def view_struct(st):
    return [(s[SITE_ID], s[SITE_CLASS], s[LOCATION]) for s in st.sites()] + list(st.site_ids)


def gen_ask(ch, s):
    i = ch.draw(len(s.specs))
    spec = s.specs[i]
    n = math.prod(spec.size) * (spec.classes if spec.kind == "custom" else 1)
    k = s.only
    if k is None:
        k = ch.weighted(6, 3, 2, 3, 3, 5, 8, 2, 3, 3, 4, 3, 2, 3)
    if k == 0:
        if ch.flip(350):
            # a place where a site may be added later
            number = ch.draw(2)
            name = ch.pick(("site_at", "id_at", "class_at", "state_at"))
            return Ask(f"{name}(place {number}) of structure {i}",
                       lambda w: getattr(w.sims[i] if name == "state_at" else w.structs[i], name)(place(w.structs[i], number)))
        base, moved = ch.draw(n), [ch.pick((0, 0, 1, -1, 2, 0.31)) for _ in range(spec.dim)]
        name = ch.pick(("site_at", "id_at", "class_at", "state_at"))

        def f(w):
            st = w.structs[i]
            loc = tuple(np.array(st.site_location(base)) + np.dot(moved, st.lattice.matrix))
            return getattr(w.sims[i] if name == "state_at" else st, name)(loc)
        return Ask(f"{name}(location of site {base} moved by {moved} cells) of structure {i}", f)
    if k == 1:
        sid = ch.draw(n + 1)
        name = ch.pick(("get_site", "site_class", "site_location"))
        return Ask(f"{name}({sid}) of structure {i}", lambda w: getattr(w.structs[i], name)(sid))
    if k == 2:
        return Ask(f"all_site_classes() of structure {i}", lambda w: w.structs[i].all_site_classes(), sort=True)
    if k == 3:
        c = ch.pick((None, "A", "B", "_A", "N"))
        return Ask(f"sites({c}) of structure {i}", lambda w: w.structs[i].sites(c))
    if k == 4:
        fresh = ch.flip(700)
        a, b = ([ch.pick((0, 0.5, -0.3, 1.7, 2.25)) for _ in range(spec.dim)] for _ in range(2))
        name = ch.pick(("get_fractional_coords", "get_cartesian_coords", "get_periodized_cartesian_coords", "cartesian_periodic_distance",
                        "get_scaled_lattice"))

        def f(w):
            lat = w.lattices[i] if fresh else w.structs[i].lattice
            if name == "cartesian_periodic_distance":
                return lat.cartesian_periodic_distance(np.array(a), np.array(b))
            if name == "get_scaled_lattice":
                x = lat.get_scaled_lattice([2] * spec.dim)
                return (x.vecs, x.periodic, x.get_fractional_coords(np.array(a)))
            return getattr(lat, name)(np.array(a))
        return Ask(f"{name}({a}, {b}) of structure {i}", f)
    if k == 5:
        j = ch.draw(len(s.nbs))
        i = s.nbs[j][0]
        m = math.prod(s.specs[i].size)
        sid, wt = ch.draw(m), ch.flip(500)
        return Ask(f"neighbors_of({sid}, {wt}) of neighborhood {j}", lambda w: w.nbs[j].neighbors_of(sid, include_weights=wt))
    if k == 6:
        j = ch.draw(len(s.nbs))
        i = s.nbs[j][0]
        same = [x for x, sp in enumerate(s.specs) if sp.kind == s.specs[i].kind and sp.dim == s.specs[i].dim]
        i = ch.pick(same)
        return Ask(f"the neighborhood that builder {j} builds for structure {i}",
                   lambda w: every_neighbor(w.nbb[j].get(w.structs[i]), w.structs[i]))
    if k == 13:
        # structures that are gone afterwards
        j = ch.draw(len(s.nbs))
        spec = s.specs[s.nbs[j][0]]
        sizes = [spec.size, tuple(reversed(spec.size)), tuple([math.prod(spec.size)] + [1] * (spec.dim - 1))]
        size = ch.pick(sizes)
        if spec.kind == "square2" and min(size) < 3:
            size = spec.size

        def f(w):
            st = spec.builder().build(size)
            return every_neighbor(w.nbb[j].get(st), st)
        return Ask(f"the neighborhood that builder {j} builds for a new structure of size {size}", f)
    if k == 7:
        size = tuple(ch.between(2, 4 if spec.dim < 3 else 3) for _ in range(spec.dim))
        return Ask(f"the structure of size {size} that builder {i} builds", lambda w: view_struct(w.builders[i].build(size)))
    if k == 8:
        sid = ch.draw(n + 1)
        name = ch.pick(("get_site_state", "get_general_state", "site_ids", "size", "all_site_states", "copy", "plain"))

        def f(w):
            st = w.states[i]
            if name == "get_site_state":
                return st.get_site_state(sid)
            if name == "size":
                return st.size
            if name == "copy":
                c = st.copy()
                c.set_site_state(sid, {"v": 99})
                c.set_general_state({"x": 1})
                return L.plain(c)
            if name == "plain":
                return L.plain(st)
            return getattr(st, name)()
        return Ask(f"{name}({sid}) of state {i}", f)
    if k == 9:
        v, p = ch.draw(4), ch.pick(PHASES + "z")
        name = ch.pick(("cell_count", "cell_fraction", "phase_count", "phases_present"))
        args = (p,) if name.startswith("cell") else ()
        return Ask(f"{name}{args} of state {i}", lambda w: getattr(w.steps, name)(w.states[i], *args), sort=name == "phases_present")
    if k == 10:
        v, p = ch.draw(4), ch.pick(PHASES)
        c = ch.pick((None, None, "A", "B", "_A", "N"))
        free = ch.flip(300)
        name = ch.pick(("get_sites", "get_site_count", "get_sites_where_equal", "get_site_count_where_equal"))
        pairs = ({"v": v}, {OCC: p}, {OCC: p, "v": v})[ch.draw(3)]

        def f(w):
            an = w.free if free else w.filters[i]
            if name.endswith("equal"):
                return getattr(an, name)(w.states[i], dict(pairs), c)
            return getattr(an, name)(w.states[i], c, [lambda x: x["v"] >= v, lambda x: x[OCC] != p])
        return Ask(f"{name}({pairs}, class {c}) of state {i}{' without structure' if free else ''}", f)
    if k == 11:
        return Ask(f"the whole structure {i}", lambda w: view_struct(w.structs[i]))
    return Ask(f"simulation {i} as a dictionary", lambda w: w.sims[i].as_dict())


def place(st, number):
    return tuple(st.lattice.get_cartesian_coords([0.11 + 0.07 * number + 0.01 * d for d in range(st.dim)]))


class Update:
    """A site added, or a state updated."""

    def __init__(self, ch, s, number):
        self.i = i = ch.draw(len(s.specs))
        spec = s.specs[i]
        n = math.prod(spec.size) * (spec.classes if spec.kind == "custom" else 1)
        self.kind = ch.pick(("state", "state", "batch", "general", "site"))
        self.sid = ch.draw(n)
        self.values = {"v": ch.draw(4)} if ch.flip(400) else {OCC: ch.pick(PHASES)}
        self.number = number
        self.cls = ch.pick(("N", "A"))
        self.text = f"update {number}: {self.kind} {self.i} {self.sid} {self.values} {self.cls}"

    def apply(self, w):
        st, state = w.structs[self.i], w.states[self.i]
        if self.kind == "state":
            state.set_site_state(self.sid, dict(self.values))
        elif self.kind == "batch":
            state.batch_update({self.sid: dict(self.values), 0: {"v": 3}})
        elif self.kind == "general":
            state.set_general_state({"t": self.sid})
        else:
            sid = st.add_site(self.cls, place(st, self.number))
            state.set_site_state(sid, {OCC: "q", "v": 1, **self.values})


class Asker(BasicController):
    """Makes the calls in worker processes: one call per site and step."""

    def __init__(self, world, asks):
        self.world, self.asks = world, asks

    def get_state_update(self, site_id, prev_state):
        a = self.asks[site_id % len(self.asks)]
        return {"a": repr(a.form(a.raw(self.world)))}


def spoil(ch, v):
    """The caller owns a list it was given."""
    if isinstance(v, list):
        k = ch.draw(3)
        if k == 0:
            v.append(12345)
        elif k == 1:
            v.clear()
        else:
            v.reverse()


def run(w):
    ch = w.ch
    narrow = ch.flip(600)
    s = Setting(ch, only=ch.weighted(4, 2, 1, 2, 6, 4, 6, 3, 2, 2, 4, 1, 1, 3) if narrow else None)
    rounds = 1 + ch.flip(300) if narrow else ch.between(1, 3)
    asks = [gen_ask(ch, s) for _ in range(ch.between(1, 4) if narrow else ch.between(3, 10))]
    updates = [Update(ch, s, j) for j in range(rounds - 1)]
    w.sample = f"{s!r}; " + "; ".join(a.text for a in asks)
    w.ev(w.sample)

    # what every call answers when it is the only one
    def alone(world, a):
        out = F.in_child(lambda: a.form(a.raw(world)))
        return out[1] if out[0] == "done" else out

    def expectations():
        world = s.build(alone=True)
        out = []
        for r in range(rounds):
            if r:
                updates[r - 1].apply(world)
            out.append([alone(world, a) for a in asks])
        return out
    got = F.in_child(expectations)
    if got[0] != "done":
        raise RuntimeError(f"the objects cannot be built: {got}")
    want = got[1]
    w.nontrivial = False
    world = s.build()

    def judge(r, a, v, where):
        x = want[r][asks.index(a)]
        w.check(v == x, "answer_differs", lambda: f"{s!r}: {a.text}, {where}, after {r} updates: {str(v)[:300]}; as the only call: {str(x)[:300]}")

    for r in range(rounds):
        if r:
            updates[r - 1].apply(world)
            w.ev(updates[r - 1].text)
            w.nontrivial = True
        for _ in range(ch.between(2, 8) if narrow else ch.between(1, 3)):
            if ch.flip(600 if narrow else 250):
                # objects nothing was asked of yet
                world = s.build()
                for u in updates[:r]:
                    u.apply(world)
                w.ev("new objects")
            k = ch.weighted(3, 6, 1, 6, 2) if narrow else ch.weighted(5, 4, 2, 4, 2)
            plan = [ch.pick(asks) for _ in range(ch.between(1, 4) if narrow else ch.between(2, 8))]
            w.ev(("in turn", "threads", "workers", "interrupts", "other objects")[k])
            if k == 0:
                for a in plan:
                    got = a.raw(world)
                    judge(r, a, a.form(got), "asked in turn")
                    if a.text[:3] != "sim" and ch.flip(400):
                        spoil(ch, got[0])
            elif k == 1:
                groups = [[ch.pick(asks) for _ in range(ch.between(1, 4))] for _ in range(ch.between(2, 3))]
                outs = T.Scheduler(w).run([lambda g=g: [a.form(a.raw(world)) for a in g] for g in groups])
                for g, (vals, e) in zip(groups, outs):
                    if e is not None:
                        raise e
                    for a, v in zip(g, vals):
                        judge(r, a, v, "asked by one of several threads")
            elif k == 2:
                P.choose_config(w)
                w.pool_cfg.max_active = min(w.pool_cfg.max_active, 3)
                st = SimulationState()
                for j in range(len(plan)):
                    st.set_site_state(j, {"a": None})
                res = SynchronousRunner(parallel=True, workers=ch.between(1, 4)).run(st, Asker(world, plan), ch.between(1, 2))
                w.nontrivial = True
                for q in range(1, len(res)):
                    step = res.get_step(q)
                    for j, a in enumerate(plan):
                        v, x = step.get_site_state(j)["a"], repr(want[r][asks.index(a)])
                        w.check(v == x, "answer_differs", lambda: f"{s!r}: {a.text}, asked in a worker process, after {r} updates: "
                                f"{str(v)[:300]}; as the only call: {x[:300]}")
            elif k == 3:
                for a in plan:
                    it = T.interrupter(w, ch.pick((400, 3000)), 120)
                    try:
                        got = it.run(lambda: a.raw(world))
                    except KeyboardInterrupt:
                        continue
                    judge(r, a, a.form(got), "asked after interrupted calls")
                for a in plan[:3]:
                    judge(r, a, a.form(a.raw(world)), "asked after interrupted calls")
            else:
                w.nontrivial = True
                other = Setting(ch, like=s)
                ow = other.build()
                w.ev(f"other objects: {other!r}")
                for _ in range(ch.between(1, 4)):
                    gen_ask(ch, other).raw(ow)
                if ch.flip(500):
                    del ow
                    gc.collect()
                for a in plan[:4]:
                    judge(r, a, a.form(a.raw(world)), "asked after other objects were used")

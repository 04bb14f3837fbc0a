import json

import numpy as np

from pylattica.core import Lattice, Simulation, SimulationState
from pylattica.core.constants import LOCATION, SITE_CLASS, SITE_ID
from pylattica.core.periodic_structure import PeriodicStructure
from pylattica.core.structure_builder import StructureBuilder
from pylattica.structures.honeycomb import HoneycombTilingBuilder
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder

from sim import pool as P
from . import workloads as L
from . import storage as S

ID = "C10"
QUICK = 4500
THOROUGH = 30000
RULE = ("simulations over grid structures (1 to 3 dimensions, any size, periodicity, cell lengths, several site classes) with "
        "arbitrary states, also after a run, are saved and loaded, possibly over a previous one, under storage faults, process death, cut-off "
        "files and reordered mappings. Non-trivial: a storage fault, cut or reordering happened.")


class _B(StructureBuilder):
    pass


def placed(ch):
    """Sites placed one by one in a lattice of any shape, at any fractional positions."""
    dim = ch.weighted(1, 4, 3) + 1
    skewed = ch.flip(700)
    while True:
        vecs = [[ch.pick((1, 2, 0.5, 3, 1.7, 3 ** 0.5, 2.46)) if i == j else ch.pick((0, 0.5, -0.5, 0.3, 1)) if skewed else 0
                 for j in range(dim)] for i in range(dim)]
        if abs(np.linalg.det(np.array(vecs, dtype=float))) > 0.2:
            break
        skewed = False
    per = ch.pick((True, True, False, None))
    if per is None:
        per = tuple(bool(ch.draw(2)) for _ in range(dim))
    cells = [ch.between(1, 6 if dim == 1 else 3 if dim == 2 else 2) for _ in range(dim)]
    base = Lattice(vecs, per)
    struct = PeriodicStructure(base.get_scaled_lattice(cells))
    fracs = (0, 0.5, 1 / 3, 2 / 3, 0.25, 0.1, 0.0625, 0.9996, 0.99951, 0.3333, 1e-4, -0.2)
    motif = [(c, tuple(ch.pick(fracs) for _ in range(dim))) for c in ("A", "B", "C")[:ch.between(1, 3)]]
    placements = []
    for cell in ch.shuffled(list(np.ndindex(*cells))):
        for site_class, at in motif:
            loc = base.get_cartesian_coords(np.array(cell, dtype=float) + np.array(at))
            try:
                struct.add_site(site_class, tuple(loc))
            except AssertionError:
                continue
            placements.append(tuple(float(x) for x in loc))
    return struct, placements


def gen_struct(ch):
    kind = ch.weighted(4, 2, 4, 1)
    if kind == 0:
        return SimpleSquare2DStructureBuilder().build((ch.between(1, 5), ch.between(1, 5)))
    if kind == 1:
        return SimpleSquare3DStructureBuilder().build((ch.between(1, 3), ch.between(1, 3), ch.between(1, 3)))
    if kind == 3:
        return HoneycombTilingBuilder().build((ch.between(1, 4), ch.between(1, 4)))
    dim = ch.between(1, 3)
    cell = [ch.pick((1, 2, 0.5, 3)) for _ in range(dim)]
    per = ch.pick((True, False, None))
    if per is None:
        per = tuple(bool(ch.draw(2)) for _ in range(dim))
    lat = Lattice([[cell[i] if i == j else 0 for j in range(dim)] for i in range(dim)], per)
    motif = {"A": [tuple(0 for _ in range(dim))]}
    if ch.flip(500):
        motif["B"] = [tuple(c * 0.5 for c in cell)]
        if ch.flip(300):
            motif["C"] = [tuple(c * (0.25 if i == 0 else 0.75) for i, c in enumerate(cell))]
    if ch.flip(200):
        new = ch.shuffled(("A", "", "0", "\u03a9", "class two", "None"))
        motif = {n: v for n, v in zip(new, motif.values())}
    if ch.flip(150):
        return PeriodicStructure.build_from(lat, [1] * dim, motif)
    return _B(lat, motif).build(tuple(ch.between(1, 11 if dim == 1 else 4 if dim == 2 else 3) for _ in range(dim)))


def view(sim, probes):
    st = sim.structure
    sites = {s[SITE_ID]: (s[SITE_CLASS], tuple(round(float(x), 6) + 0.0 for x in s[LOCATION])) for s in st.sites()}
    lat = st.lattice
    found = []
    for loc in probes:
        s = st.site_at(loc)
        found.append((None if s is None else (s[SITE_ID], s[SITE_CLASS]), st.id_at(loc), L.canon(sim.state_at(loc))))
    return (L.canon(sites), L.canon([list(map(float, v)) for v in np.array(lat.vecs)]), L.canon([bool(p) for p in lat.periodic]),
            st.dim, list(st.site_ids), L.canon(found), L.canon(L.plain(sim.state)))


NAMES = ("sites", "lattice vectors", "periodicity", "dimension", "site ids", "sites found at locations", "state")


def describe(got, want):
    for n, g, x in zip(NAMES, got, want):
        if g != x:
            return f"{n}: got {str(g)[:400]}, expected {str(x)[:400]}"
    return "?"


def make(w):
    ch = w.ch
    struct, placements = placed(ch) if ch.flip(350) else (gen_struct(ch), [])
    ids = list(struct.site_ids)
    state = L.gen_state(ch, ids=ids) if ch.flip(800) else SimulationState.from_struct(struct)
    if ch.flip(200) and len(ids) <= 12:
        P.choose_config(w)
        w.pool_cfg.max_active = 3
        case = L.Case(w, state=state, modes=("parallel", "serial"), small=True)
        state = case.run().last_step
    vecs = np.array(struct.lattice.vecs, dtype=float)
    probes = []
    for _ in range(12):
        s = struct.get_site(ch.pick(ids))
        loc = np.array(s[LOCATION], dtype=float)
        k = ch.draw(4)
        if placements and ch.flip(500):
            loc = np.array(ch.pick(placements))
        if k == 1:
            loc = loc + vecs[ch.draw(len(vecs))] * (ch.draw(5) - 2)
        elif k == 2:
            loc = loc + 0.31
        elif k == 3:
            loc = loc - 1
        probes.append(tuple(float(x) for x in loc))
    return Simulation(state, struct), probes, f"simulation over {len(ids)} sites, dim {struct.dim}, periodic {struct.lattice.periodic}"


def moved_on(ch, sim):
    new = SimulationState(sim.state.as_dict()["state"])
    have = list(new.site_ids())
    for i in ch.shuffled(have)[:ch.between(1, 4)]:
        now = new.get_site_state(i)
        for k in sorted(now, key=repr):
            if type(now[k]) in (int, float):
                new.set_site_state(i, {k: now[k] + 1})
                break
            if type(now[k]) is str and now[k]:
                new.set_site_state(i, {k: now[k][::-1]})
                break
        else:
            new.set_site_state(i, {"k": ch.pick((1, 2, 3))})
    return Simulation(new, sim.structure)


def concurrent(w):
    ch = w.ch
    items = []
    for i in range(ch.between(2, 3)):
        sim, probes, what = make(w)
        path = f"sim{i}.json"
        items.append((what, lambda s=sim, p=path: s.to_file(p), lambda p=path, q=probes: view(Simulation.from_file(p), q),
                      view(sim, probes)))
    w.sample = "concurrently: " + " | ".join(x[0] for x in items)
    w.ev(w.sample)
    S.concurrent(w, items, describe)


def run(w):
    ch = w.ch
    if ch.flip(100):
        return concurrent(w)
    path = ch.pick(("sim.json", "simulation"))
    prev = None
    for gen in range(ch.pick((1, 2))):
        if prev is not None and ch.flip(600):
            # the simulation moved on a little and is saved again: a text of nearly the same length
            sim, what = moved_on(ch, prev), what + ", moved on"
        else:
            sim, probes, what = make(w)
        w.sample = what
        want = view(sim, probes)
        back = json.loads(json.dumps(sim.as_dict()))
        back = Simulation.from_dict(S.reorder(ch, back) if ch.flip(500) else back)
        w.check(view(back, probes) == want, "dict_differs", lambda: f"{what}: from_dict(as_dict()) differs: "
                + describe(view(back, probes), want))

        def load():
            return view(Simulation.from_file(path), probes)
        old = view(prev, probes) if prev is not None and prev.structure.dim == sim.structure.dim else None
        out = S.exercise(w, what, lambda: sim.to_file(path), load, path, want, describe, old)
        w.check(view(sim, probes) == want, "memory_changed", f"{what}: saving changed the simulation in memory")
        if out != "returned":
            sim.to_file(path)
            w.check(load() == want, "load_differs", f"{what}: saving again after a failed save gives a different simulation")
        prev = sim

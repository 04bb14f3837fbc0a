import math
import random
from fractions import Fraction

from pylattica.core.constants import LOCATION
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.structures.square_grid.grid_setup import DiscreteGridSetup

from sim import rng as R
from . import workloads as L

ID = "C13"
QUICK = 2600
THOROUGH = 80000
CPU_LIMIT = 20.0
RULE = ("random layouts (sites with a buffer, noise, particles) of drawn sizes, counts, ratios, buffers and dimensions under fair and "
        "adversarial outcomes of the random source (constant lowest/highest, sticky, alternating, extreme, mixtures), with the number of "
        "random draws bounded. Non-trivial: an adversarial source, or at least two sites had to be placed with a buffer.")


def grid(sim):
    return {s: tuple(int(round(float(x))) for x in sim.structure.site_location(s)) for s in sim.structure.site_ids}


def occ(sim):
    return {s: sim.state.get_site_state(s)[DISCRETE_OCCUPANCY] for s in sim.state.site_ids()}


def arrange(w, attempts):
    mode = R.choose_mode(w) if w.ch.flip(650) else "fair"
    if mode == "fair":
        R.inst.set_mode("fair")
        R.inst.seed(w.ch.seed_value())
    else:
        w.nontrivial = True
    R.inst.count = 0
    R.inst.limit = attempts
    return mode


def sites(w):
    ch = w.ch
    dim = ch.pick((2, 2, 2, 3))
    if ch.flip(120):
        size = tuple(ch.between(1, 7 if dim == 2 else 3) for _ in range(dim))
    else:
        size = ch.between(1, 9 if dim == 2 else 4)
    ext = size if isinstance(size, tuple) else (size,) * dim
    total = math.prod(ext)
    phases = [f"p{i}" for i in range(ch.between(1, 5))]
    buffer = ch.pick((2, 1, None, 0, 3, 5))
    want = ch.pick((2, 1, 3, 0, 5, 8, total, total + 1, max(1, total // 2)))
    room = 1 if buffer is None else max(1, math.prod(max(1, e // (buffer + 1)) for e in ext))
    if ch.flip(500) and buffer is not None:
        want = max(0, room + ch.draw(3) - 1)
    want = min(want, 40)
    frac = ch.flip(150)
    amt_style = ch.weighted(4, 3, 2, 1)
    amts = {}
    for p in phases:
        amts[p] = (1, ch.between(1, 9), ch.pick((0.1, 0.5, 1 / 3, 2.5, 1e-6, 1000.0)), ch.pick((0, 1)))[amt_style]
    if amt_style == 3 and ch.flip(500):
        amts = {p: 0 for p in phases}
    if ch.flip(250):
        # amounts of which every share is a whole number of sites
        amts = {p: ch.between(1, 9) for p in phases}
        g = math.gcd(*amts.values())
        want = sum(amts.values()) // g * ch.pick((1, 1, 2))
        buffer, frac, dim = ch.pick((None, 0)), False, 2
        size = max(2, math.isqrt(want - 1) + 1 + ch.draw(2))
        if ch.flip(200):
            amts = {p: a * ch.pick((0.1, 0.01, 1 / 3)) for p, a in amts.items()}
        ext, total = (size,) * 2, size * size
    request = want + (0.3 if frac else 0)
    mode = arrange(w, 8000 * (want + 1) + 4000)
    w.sample = f"random sites: size={size} dim={dim} n={request} amounts={amts} buffer={buffer} source={mode}"
    w.ev(w.sample)
    setup = DiscreteGridSetup(PhaseSet(phases + ["bg"]), dim=dim)
    kw = {} if buffer == 2 and ch.flip(300) else {"buffer": buffer}
    try:
        sim = setup.setup_random_sites(size, request, "bg", dict(amts), **kw)
    except Exception as e:
        w.probe("refused_" + type(e).__name__)
        w.ev(f"refused: {type(e).__name__}")
        if isinstance(e, (TypeError, KeyError, AttributeError, IndexError, NameError, AssertionError)):
            raise
        return
    w.probe("placed")
    o = occ(sim)
    at = grid(sim)
    ext = tuple(max(at[x][i] for x in at) + 1 for i in range(dim))
    w.check(len(o) == total, "wrong_size", f"{w.sample}: the state has {len(o)} sites, the grid {total}")
    placed = [s for s in o if o[s] != "bg"]
    n = round(request)
    w.check(len(placed) == n, "wrong_count", f"{w.sample}: {len(placed)} sites are not background, {n} requested")
    s = sum(Fraction(a) for a in amts.values())
    exact = all(isinstance(a, int) for a in amts.values())
    for p in phases:
        c = sum(1 for x in placed if o[x] == p)
        share = n * Fraction(amts[p]) / s if s else 0
        # amounts that are floats are only approximately what the user meant
        w.check(c <= math.ceil(share if exact else share + Fraction(1, 10 ** 6)),
                "share_exceeded", f"{w.sample}: phase {p} got {c} sites, its share is {float(share)}")
    w.check(all(o[x] in phases for x in placed), "wrong_phase", f"{w.sample}: a site holds a phase that was not requested")
    if buffer is not None:
        if len(placed) > 1:
            w.nontrivial = True
        for i, x in enumerate(placed):
            for y in placed[:i]:
                d = max(min(abs(a - b), e - abs(a - b)) for a, b, e in zip(at[x], at[y], ext))
                w.check(d > buffer, "too_close", f"{w.sample}: sites at {at[x]} and {at[y]} are only {d} apart, the buffer is {buffer}")


def noise(w):
    ch = w.ch
    dim = ch.pick((2, 2, 3))
    size = ch.between(1, 7 if dim == 2 else 4)
    phases = [f"p{i}" for i in range(ch.between(1, 5))]
    setup = DiscreteGridSetup(PhaseSet(phases), dim=dim)
    total = size ** dim
    mode = arrange(w, 60 * total + 2000)
    w.sample = f"noise: size={size} dim={dim} phases={phases} source={mode}"
    w.ev(w.sample)
    sim = setup.setup_noise(size, list(phases))
    o = occ(sim)
    w.check(sorted(o) == sorted(sim.structure.site_ids) and len(o) == total, "wrong_size", f"{w.sample}: {len(o)} sites")
    w.check(all(v in phases for v in o.values()), "wrong_phase", f"{w.sample}: a site holds none of the listed phases")
    if ch.flip(350) and total <= 30:
        # every phase can occur at every site: 60 fair draws per phase, chance of a miss below 1e-11 per site and phase
        R.inst.set_mode("fair")
        R.inst.seed(ch.seed_value())
        R.inst.limit = None
        seen = {s: set() for s in o}
        left = sum(len(phases) for _ in o)
        for _ in range(60 * len(phases)):
            for s, v in occ(setup.setup_noise(size, list(phases))).items():
                if v not in seen[s]:
                    seen[s].add(v)
                    left -= 1
            if left <= 0:
                break
        for s in seen:
            w.check(len(seen[s]) == len(phases), "phase_never", f"{w.sample}: under a fair random source site {s} never holds "
                    f"{sorted(set(phases) - seen[s])}")
        if total <= 4 and len(phases) ** total <= 27:
            # and the sites are filled independently: every assignment occurs (chance of a miss below 1e-11)
            n = len(phases) ** total
            met = set()
            for _ in range(30 * n):
                met.add(tuple(v for _, v in sorted(occ(setup.setup_noise(size, list(phases))).items())))
                if len(met) == n:
                    break
            w.check(len(met) == n, "assignment_never", f"{w.sample}: under a fair random source only {len(met)} of the {n} possible "
                    f"assignments of phases to the sites occur in {30 * n} layouts")
        w.probe("coverage_tests")


def particles(w):
    ch = w.ch
    dim = ch.pick((2, 2, 3))
    size = ch.between(1, 7 if dim == 2 else 4)
    radius = ch.pick((1, 2, 1.5, 3, 0, 2.5, 0.5))
    n = ch.draw(4)
    phases = [f"p{i}" for i in range(ch.between(1, 3))]
    setup = DiscreteGridSetup(PhaseSet(phases + ["bg"]), dim=dim)
    mode = arrange(w, 200 * n + 2000)
    w.sample = f"particles: size={size} dim={dim} radius={radius} n={n} phases={phases} source={mode}"
    w.ev(w.sample)
    sim = setup.setup_random_particles(size, radius, n, "bg", list(phases))
    o, at = occ(sim), grid(sim)
    w.check(sorted(o) == sorted(sim.structure.site_ids) and len(o) == size ** dim, "wrong_size", f"{w.sample}: {len(o)} sites")
    w.check(all(v in phases or v == "bg" for v in o.values()), "wrong_phase", f"{w.sample}: a site holds none of the phases")
    changed = {s for s in o if o[s] != "bg"}
    near = {}
    for c in at:
        near[c] = {s for s in at if math.dist(at[s], at[c]) < radius}

    def cover(rest, k):
        if not rest:
            return True
        if k == 0 or len(rest) > k * max(len(v) for v in near.values()):
            return False
        x = min(rest)
        return any(x in near[c] and cover(rest - near[c], k - 1) for c in at)
    w.check(cover(changed, n), "not_particles", f"{w.sample}: the changed sites {sorted(at[s] for s in changed)} do not lie within "
            f"{radius} of {n} centers")
    if n and radius > 0:
        w.probe("particle_layouts")


def run(w):
    (sites, noise, particles)[w.ch.weighted(6, 2, 2)](w)

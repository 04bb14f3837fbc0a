import gc

from pylattica.core import SimulationState, SynchronousRunner
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
from pylattica.models.game_of_life import controller as G
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder

from sim import pool as P
from sim import threads as T
from . import workloads as L

ID = "C16"
QUICK = 2600
THOROUGH = 35000
RULE = ("life-like automata with any rule string on square and rectangular grids from 3 by 3, random patterns and densities, several "
        "generations, serial and parallel under any worker schedule and idle-worker replacement, controllers reused for other grids or "
        "several at a time in threads; compared with an array model. Non-trivial: parallel, threads, or a reused controller.")
KNOWN = ("B3/S23", "B4678/S35678", "B35678/S5678", "B2/S", "B3/S12345", "B36/S23", "B/S012345678", "B012345678/S", "B/S", "B0/S8",
         "B1357/S1357")


def gen_rule(ch):
    if ch.flip(350):
        return ch.pick(KNOWN)
    b, s = ("".join(str(d) for d in range(9) if ch.flip(p)) for p in (350, 450))
    if ch.flip(200):
        b = "".join(ch.shuffled(b))
    return f"B{b}/S{s}"


def model(alive, ext, born, survive):
    out = set()
    for x in range(ext[0]):
        for y in range(ext[1]):
            n = sum(1 for i in (-1, 0, 1) for j in (-1, 0, 1) if (i or j) and ((x + i) % ext[0], (y + j) % ext[1]) in alive)
            if n in (survive if (x, y) in alive else born):
                out.add((x, y))
    return out


class Game:
    def __init__(self, w, ctrl=None, rule=None, like=None):
        ch = w.ch
        self.w = w
        size = ch.pick((3, 4, 5, 6, (3, 5), (6, 3), (4, 7), (3, 3), (8, 3), 8, (4, 6), (3, 4), (12, 3), (9, 4)))
        if like is not None:
            # as many sites as the other grid, in another shape if there is one
            n = like[0] * like[1]
            shapes = [(a, n // a) for a in range(3, n // 3 + 1) if n % a == 0]
            size = ch.pick([x for x in shapes if x != like] or shapes)
        self.struct = SimpleSquare2DStructureBuilder().build(size)
        self.at = {s: tuple(int(round(float(x))) for x in self.struct.site_location(s)) for s in self.struct.site_ids}
        self.ext = tuple(max(a[i] for a in self.at.values()) + 1 for i in (0, 1))
        self.rule = rule or gen_rule(ch)
        p = ch.pick((400, 200, 600, 50, 900))
        self.alive = {a for a in self.at.values() if ch.flip(p)}
        self.state = SimulationState()
        for s in self.struct.site_ids:
            self.state.set_site_state(s, {OCC: "alive" if self.at[s] in self.alive else "dead"})
        self.ctrl = ctrl or self.make()
        self.steps = ch.between(1, 5)
        self.parallel = ch.flip(600)
        self.workers = ch.pick((None, 1, 2, 3, 4, 7))
        self.desc = f"{'parallel' if self.parallel else 'serial'} {self.rule} on {size}, {len(self.alive)} alive, {self.steps} steps"

    def make(self):
        ch = self.w.ch
        if self.rule == "B3/S23" and ch.flip(500):
            return G.GameOfLifeController(self.struct)
        if ch.flip(150):
            cls = type("Custom", (G.GameOfLifeController,), {"variant": self.rule})
            return cls(self.struct)
        if ch.flip(500):
            return G.GameOfLifeController(self.struct, self.rule)
        return G.GameOfLifeController(self.struct, variant=self.rule)

    def run(self):
        return SynchronousRunner(parallel=self.parallel, workers=self.workers).run(self.state, self.ctrl, self.steps)

    def check(self, res, what=""):
        w = self.w
        w.check(len(res) == self.steps + 1, "wrong_length", f"{what}{self.desc}: {len(res)} states recorded")
        b, s = self.rule.split("/")
        born, survive = {int(c) for c in b[1:]}, {int(c) for c in s[1:]}
        cur = self.alive
        for k in range(len(res)):
            if k:
                cur = model(cur, self.ext, born, survive)
            st = res.get_step(k)
            for sid, a in self.at.items():
                v = st.get_site_state(sid)[OCC]
                want = "alive" if a in cur else "dead"
                w.check(v == want, "wrong_cell", f"{what}{self.desc}: step {k}: the cell at {a} is {v}, expected {want}")


def run(w):
    ch = w.ch
    P.choose_config(w)
    w.pool_cfg.max_active = min(w.pool_cfg.max_active, 5)
    k = ch.weighted(6, 2, 2, 3)
    g = Game(w)
    w.sample = g.desc
    w.ev(w.sample)
    if k == 0:
        g.check(g.run())
        w.nontrivial = g.parallel
    elif k == 1:
        g.check(g.run())
        first = g
        g.steps = ch.between(1, 3)
        g.alive_last = None
        g.check(g.run(), "rerun of the same controller: ")
        other = Game(w, like=g.ext if ch.flip(500) else None)
        w.sample += " then " + other.desc
        other.check(other.run())
        first.check(first.run(), "after a game on another grid: ")
        w.nontrivial = True
    elif k == 3:
        # one game after the other, the earlier ones are forgotten
        for j in range(ch.between(2, 4)):
            g.check(g.run(), f"game number {j}: ")
            ext = g.ext
            del g
            gc.collect()
            g = Game(w, like=ext if ch.flip(600) else None)
            w.sample += " then " + g.desc
        g.check(g.run(), "last game: ")
        w.nontrivial = True
    else:
        games = [g] + [Game(w) for _ in range(ch.between(1, 2))]
        w.sample = "concurrently: " + " | ".join(x.desc for x in games)
        w.ev(w.sample)
        outs = T.Scheduler(w).run([x.run for x in games])
        for x, (r, e) in zip(games, outs):
            if e is not None:
                raise e
            x.check(r, "concurrent: ")

import os
import sys
import types
from _thread import get_ident

from PIL import Image

from pylattica.core import BasicController, SimulationResult, SimulationState, SynchronousRunner
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder
from pylattica.visualization import DiscreteCellArtist, SquareGridArtist2D, SquareGridArtist3D
from pylattica.visualization.cell_artist import CellArtist

from sim import fs as F
from sim import pool as P
from sim import threads as T
from . import storage as S
from . import workloads as L
from . import C17

ID = "C20"
QUICK = 1500
THOROUGH = 25000
RULE = ("pictures, legends and colours of states and of the steps of a result, drawn by shared two- and three-dimensional artists made from "
        "phase lists, colour maps, states or results: in any order, repeatedly, by threads, in worker processes, after interrupted or failed "
        "drawings, after states were updated and steps recorded, and saved under storage faults; every picture is compared with the one drawn as the only one in a process of its own, and "
        "those with the ones of interpreters with other string hash seeds. Non-trivial: threads, workers, an interrupt, an error or a "
        "storage fault.")
NAMES = ("A", "B", "Gamma", "d e", "liquid", "1", "Fe2O3", "_", "zz", "a")
PALETTE = ((255, 0, 0), (0, 255, 0), (0, 0, 255), (250, 250, 1), (9, 90, 200), (1, 2, 3))


class Shades(CellArtist):
    """An artist of the user's."""

    def __init__(self, scale):
        self.scale = scale

    def get_color_from_cell_state(self, cell_state):
        return (cell_state["v"] * self.scale % 256, 80, len(str(cell_state[OCC])))

    def get_cell_legend_label(self, cell_state):
        return f"v={cell_state['v']}"


class Scene:
    """What is drawn: chosen once, built the same way any number of times."""

    def __init__(self, ch):
        self.dim = 3 if ch.flip(110) else 2
        self.size = 2 if self.dim == 3 else ch.between(1, 4)
        n = self.size ** self.dim
        self.phases = ch.shuffled(NAMES)[:ch.between(1, 6)]
        if ch.flip(40):
            self.phases = [f"p{i}" for i in ch.shuffled(range(90))[:ch.between(20, 90)]]
        self.states = [[(ch.pick(self.phases), ch.draw(4)) for _ in range(n)] for _ in range(ch.between(1, 3))]
        if ch.flip(150):
            # numbers may be occupancies too
            self.states = [[(self.phases.index(p), v) for p, v in st] for st in self.states]
        self.steps = [{ch.draw(n): (ch.pick(self.phases), ch.draw(4)) for _ in range(ch.between(0, 3))} for _ in range(ch.between(0, 4))]
        if any(isinstance(p, int) for st in self.states for p, _ in st):
            self.steps = [{i: (self.phases.index(p), v) for i, (p, v) in d.items()} for d in self.steps]
        self.known = ch.shuffled(self.phases)[:ch.between(1, len(self.phases))]
        self.colours = [ch.pick(PALETTE) for _ in self.known]
        self.cells = [ch.weighted(3, 3, 3, 2, 1, 1) for _ in range(ch.between(1, 3))]
        self.source = ch.draw(len(self.states))
        self.scale = ch.between(1, 90)
        self.artists = [ch.draw(len(self.cells)) for _ in range(ch.between(1, 2))]

    def cell(self, kind, world):
        if kind == 0:
            return DiscreteCellArtist.from_phase_list(list(self.phases))
        if kind == 1:
            return DiscreteCellArtist.from_discrete_state(world.states[self.source])
        if kind == 2:
            return DiscreteCellArtist.from_discrete_result(world.result)
        if kind == 3:
            return DiscreteCellArtist(dict(zip(self.known, self.colours)))
        if kind == 4:
            return DiscreteCellArtist(dict(zip(self.known, self.colours)), legend={"one": (1, 1, 1), "another": (99, 0, 9)})
        return Shades(self.scale)

    def build(self):
        return World(self)

    def __repr__(self):
        kinds = ("list", "state", "result", "map", "map and legend", "own")
        return f"{self.dim}D size {self.size}, {len(self.phases)} phases, {len(self.steps)} steps, artists from " + ", ".join(
            kinds[self.cells[i]] for i in self.artists)


class World:
    def __init__(self, s):
        b = SimpleSquare2DStructureBuilder() if s.dim == 2 else SimpleSquare3DStructureBuilder()
        self.struct = b.build(s.size)
        self.states = []
        for rows in s.states:
            st = SimulationState()
            for sid, (p, v) in zip(self.struct.site_ids, rows):
                st.set_site_state(sid, {OCC: p, "v": v})
            self.states.append(st)
        self.result = SimulationResult(self.states[0].copy())
        for d in s.steps:
            self.result.add_step({i: {OCC: p, "v": v} for i, (p, v) in d.items()})
        self.broken = SimulationState()
        for sid in self.struct.site_ids[:-1]:
            self.broken.set_site_state(sid, {OCC: s.phases[0], "v": 1})
        self.broken.set_site_state(self.struct.site_ids[-1], {"other": 1})
        self.cells = [s.cell(k, self) for k in s.cells]
        kind = SquareGridArtist2D if s.dim == 2 else SquareGridArtist3D
        self.artists = [kind(self.struct, self.cells[i]) for i in s.artists]

    def facts(self):
        return L.canon([L.plain(st) for st in self.states + [self.broken, self.result.initial_state]]
                       + [self.result._diffs if hasattr(self.result, "_diffs") else 0, len(self.result)]
                       + [[getattr(c, "color_map", None), getattr(c, "legend", None)] for c in self.cells]
                       + [[list(map(float, x["_location"])) if "_location" in x else 0 for x in self.struct.sites()]])


def picture(img):
    return (tuple(img.size), L.crc(img.convert("RGBA").tobytes()))


SHOWN = {}


def shown(fn):
    """What fn displays."""
    if "IPython" not in sys.modules:
        top, display = types.ModuleType("IPython"), types.ModuleType("IPython.display")
        top.display, top.get_ipython, top.version_info = display, lambda: None, (8, 0)
        display.display = lambda *imgs: SHOWN.setdefault(get_ident(), []).extend(picture(i) for i in imgs)
        sys.modules["IPython"], sys.modules["IPython.display"] = top, display
    SHOWN.pop(get_ident(), None)
    fn()
    return ("shown", SHOWN.pop(get_ident(), []))


class Ask:
    """A question; ref asks the same in another way, when it is asked alone."""

    def __init__(self, text, fn, ref=None):
        self.text, self.fn, self.ref = text, fn, ref or fn

    def answer(self, world, alone=False):
        try:
            return (self.ref if alone else self.fn)(world)
        except Exception as e:
            return ("raised", type(e).__name__)


def gen_ask(ch, s):
    a = ch.draw(len(s.artists))
    j = ch.draw(len(s.states))
    step = ch.draw(len(s.steps) + 1)
    k = ch.weighted(6, 2, 2, 1, 1)
    opts = {}
    if s.dim == 2:
        opts["cell_size"] = ch.pick((1, 2, 3, 4))
    elif ch.flip(400):
        opts["shell_only"] = True
    if ch.flip(500):
        opts["label"] = ch.pick(("Step 1", "Step 2", "x"))
    if k == 0 and ch.flip(150):
        return Ask(f"state {j} shown in a notebook by artist {a} with {opts}", lambda w: shown(lambda: w.artists[a].jupyter_show(w.states[j], **opts)),
                   lambda w: ("shown", [picture(w.artists[a].get_img(w.states[j], **opts))]))
    if k == 0:
        return Ask(f"picture of state {j} by artist {a} with {opts}", lambda w: picture(w.artists[a].get_img(w.states[j], **opts)))
    if k == 1:
        return Ask(f"picture of step {step} by artist {a} with {opts}",
                   lambda w: picture(w.artists[a].get_img(w.result.get_step(step), **opts)))
    if k == 2:
        return Ask(f"legend of state {j} by artist {a}", lambda w: L.canon(w.artists[a].cell_artist.get_legend(w.states[j])))
    if k == 3:
        kind = ch.draw(3)
        return Ask(f"colours of a new artist ({kind})", lambda w: L.canon(s.cell(kind, w).color_map))
    return Ask(f"picture of state {j} by a new artist with {opts}",
               lambda w: picture(type(w.artists[a])(w.struct, s.cell(s.cells[s.artists[a]], w)).get_img(w.states[j], **opts)))


def gen_change(ch, s):
    n = s.size ** s.dim
    values = {OCC: ch.pick(ch.pick(s.states))[0], "v": ch.draw(4)}
    return (ch.draw(2), ch.draw(len(s.states)), ch.draw(n), values)


def apply(world, change):
    """A state is updated, or another step recorded."""
    kind, j, number, values = change
    sid = world.struct.site_ids[number]
    if kind:
        world.result.add_step({sid: dict(values)})
    else:
        world.states[j].set_site_state(sid, dict(values))


class Asker(BasicController):
    def __init__(self, world, asks):
        self.world, self.asks = world, asks

    def get_state_update(self, site_id, prev_state):
        return {"a": repr(self.asks[site_id % len(self.asks)].answer(self.world))}


def describe(got, want):
    return f"{str(got)[:300]}, expected {str(want)[:300]}"


def save(w, s, world, want_of, saved):
    """Pictures saved under storage faults."""
    ch = w.ch
    path = ch.pick(("picture.png", "picture.png", "out.bmp", "out.tiff"))
    for _ in range(ch.between(1, 2)):
        a, j = ch.draw(len(s.artists)), ch.draw(len(s.states))
        opts = {"cell_size": ch.pick((1, 2, 3))} if s.dim == 2 else {}
        opts["label"] = ch.pick(("x", "Step 4"))
        ask = Ask(f"state {j} by artist {a} with {opts}", lambda w: picture(w.artists[a].get_img(w.states[j], **opts)))
        want = want_of(ask)
        what = f"{s!r}: the picture of {ask.text} saved as {path}"
        w.ev(what)

        def store():
            w.check(world.artists[a].save_img(world.states[j], path, **opts) == path, "file_name", f"{what}: another name was returned")

        def load():
            with open(path, "rb") as f:
                with Image.open(f) as img:
                    return picture(img)
        out = S.exercise(w, what, store, load, path, want, describe, saved.get(path), text=False)
        if out != "returned":
            store()
            w.check(load() == want, "load_differs", f"{what}: saving again after a failed save gives another picture")
        saved[path] = want
        extra = [n for n in os.listdir(".") if n not in saved]
        w.check(not extra, "other_files", f"{what}: left {extra}")
    w.nontrivial = True


def save_together(w, s, world, want_of):
    """Several threads save pictures under names of their own at the same time."""
    ch = w.ch
    items, names = [], []
    for i in range(ch.between(2, 3)):
        a, j = ch.draw(len(s.artists)), ch.draw(len(s.states))
        opts = {"cell_size": ch.pick((1, 2, 3))} if s.dim == 2 else {}
        if ch.flip(500):
            opts["label"] = ch.pick(("x", "Step 4"))
        path = f"{ch.pick(('p', 'step', 'a.b'))}{i}.{ch.pick(('png', 'png', 'bmp'))}"
        ask = Ask(f"state {j} by artist {a} with {opts}", lambda w, a=a, j=j, opts=opts: picture(w.artists[a].get_img(w.states[j], **opts)))

        def store(a=a, j=j, path=path, opts=opts):
            world.artists[a].save_img(world.states[j], path, **opts)

        def load(path=path):
            with open(path, "rb") as f:
                with Image.open(f) as img:
                    return picture(img)
        items.append((f"{s!r}: the picture of {ask.text} saved as {path}", store, load, want_of(ask)))
        names.append(path)
    S.concurrent(w, items, describe)
    extra = [n for n in os.listdir(".") if n not in names]
    w.check(not extra, "other_files", f"{s!r}: saving several pictures at once left {extra}")
    w.nontrivial = True
    for n in names:
        os.unlink(n)


def run(w):
    ch = w.ch
    s = Scene(ch)
    asks = [gen_ask(ch, s) for _ in range(ch.between(2, 6) if s.dim == 2 else ch.between(1, 3))]
    w.sample = f"{s!r}; " + "; ".join(a.text for a in asks)
    w.ev(w.sample)
    w.nontrivial = False

    changes = []

    def body(a):
        fresh = s.build()
        for c in changes:
            apply(fresh, c)
        return a.answer(fresh, alone=True)

    def alone(a):
        got = F.in_child(lambda: body(a))
        if got[0] != "done":
            raise RuntimeError(f"{a.text}: {got}")
        return got[1]
    want = {id(a): alone(a) for a in asks}
    w.value = L.crc(L.canon([want[id(a)] for a in asks]))
    # everything below this line may differ between interpreters
    for _ in range(int(os.environ.get("VERIF_ENV", "0"))):
        ch.draw(1000)
    world = s.build()
    facts = world.facts()
    saved = {}

    def judge(a, v, where):
        w.check(v == want[id(a)], "picture_differs", lambda: f"{s!r}: {a.text}, {where}: {describe(v, want[id(a)])}")

    most = 6 if s.dim == 2 else 2
    for _ in range(ch.between(1, 3) if s.dim == 2 else 1):
        if ch.flip(350):
            changes.append(gen_change(ch, s))
            apply(world, changes[-1])
            want = {id(a): alone(a) for a in asks}
            facts = world.facts()
            w.ev(f"changed: {changes[-1]}")
        k = ch.weighted(3, 5, 2, 4, 2, 5) if s.dim == 2 else ch.weighted(1, 7, 1, 1, 1, 1)
        plan = [ch.pick(asks) for _ in range(ch.between(1, most))]
        w.ev(("in turn", "threads", "workers", "interrupts", "errors", "saved")[k])
        if k == 0:
            for a in plan:
                judge(a, a.answer(world), "drawn in turn")
                if ch.flip(400):
                    # the caller owns the picture it was given
                    img = ch.pick(world.artists).get_img(ch.pick(world.states), **({"cell_size": 2} if s.dim == 2 else {}))
                    img.paste((255, 0, 255), (0, 0, img.size[0] // 2, img.size[1] // 2))
        elif k == 1:
            groups = [[ch.pick(asks) for _ in range(ch.between(1, 3 if s.dim == 2 else 1))] for _ in range(ch.between(2, 3))]
            outs = T.Scheduler(w).run([lambda g=g: [a.answer(world) for a in g] for g in groups])
            for g, (vals, e) in zip(groups, outs):
                if e is not None:
                    raise e
                for a, v in zip(g, vals):
                    judge(a, v, "drawn by one of several threads")
        elif k == 2:
            P.choose_config(w)
            w.pool_cfg.max_active = min(w.pool_cfg.max_active, 3)
            st = SimulationState()
            for j in range(len(plan)):
                st.set_site_state(j, {"a": None})
            res = SynchronousRunner(parallel=True, workers=ch.between(1, 4)).run(st, Asker(world, plan), 1)
            w.nontrivial = True
            for j, a in enumerate(plan):
                got, x = res.last_step.get_site_state(j)["a"], repr(want[id(a)])
                w.check(got == x, "picture_differs", lambda: f"{s!r}: {a.text}, drawn in a worker process: {describe(got, x)}")
        elif k == 3:
            for a in plan:
                it = T.interrupter(w, ch.pick((400, 4000)), 100)
                try:
                    got = it.run(lambda: a.answer(world))
                except KeyboardInterrupt:
                    continue
                judge(a, got, "drawn after interrupted drawings")
            for a in plan[:3]:
                judge(a, a.answer(world), "drawn after interrupted drawings")
        elif k == 4:
            w.nontrivial = True
            for a in plan:
                try:
                    ch.pick(world.artists).get_img(world.broken, **({"cell_size": 2} if s.dim == 2 else {}))
                    failed = False
                except Exception:
                    failed = True
                    w.fault("artist_error")
                judge(a, a.answer(world), "drawn after a failed drawing" if failed else "drawn after an odd state")
        elif saved or ch.flip(450):
            save(w, s, world, alone, saved)
        else:
            save_together(w, s, world, alone)
        w.check(world.facts() == facts, "changed", f"{s!r}: drawing changed the states, the structure or the colours")


def post(a, base, n):
    m = max(30, n // 5)
    plan = [(0, 0), (1, 1), (77, 3)] if a.tier == "quick" else [(h, h % 5) for h in (0, 1, 2, 77, 101, 4242)]
    bad, i = C17.compare(a, base, m, plan, ID)
    return {"violations": bad, "probes": {"scenes_in_fresh_interpreters": m * len(plan)},
            "faults": {"other_string_hash_seed": m * (len(plan) - 1)},
            "replay": {"runs": int(i) + 1 if i is not None else m, "plan": plan, "seed": a.seed}}


def replay_extra(extra, a, base):
    a.seed = extra["seed"]
    bad, _ = C17.compare(a, base, extra["runs"], [tuple(x) for x in extra["plan"]], ID)
    return bad

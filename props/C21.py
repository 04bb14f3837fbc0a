"""Importing the package.  This module must not import the code under test: every run starts without it."""
import importlib
import importlib._bootstrap as _bootstrap
import importlib._bootstrap_external as _external
import io
import multiprocessing
import os
import pickle
import random
import re
import signal
import sys
import threading
import zlib
from _thread import get_ident

import numpy as np

from sim import threads as T
from sim import world as W

ID = "C21"
QUICK = 2400
THOROUGH = 40000
RULE = ("a fresh process in which modules and names of the package are imported in any order and form, by one or several threads, with "
        "interrupts at any line of module code and files that cannot be read, then everything is imported; names, objects, behaviour and "
        "side effects are compared with those of an undisturbed import. Non-trivial: another first module than the usual one, threads, an "
        "interrupt or an unreadable file.")
FIRST = "pylattica.core"


def modules():
    root = W.CODE_PREFIX.rstrip(os.sep)
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if os.path.exists(os.path.join(d, x, "__init__.py")))
        rel = os.path.relpath(d, os.path.dirname(root)).split(os.sep)
        for f in sorted(files):
            if f.endswith(".py"):
                out.append(".".join(rel if f == "__init__.py" else rel + [f[:-3]]))
    return sorted(out, key=lambda m: (m != FIRST, m))


def describe(v):
    """What a module says under a name; None for what depends on the order by the rules of the language."""
    if isinstance(v, type(sys)):
        return None
    if isinstance(v, type) or hasattr(v, "__qualname__"):
        return ("def", v.__module__, v.__qualname__)
    return (type(v).__name__, re.sub(r"0x[0-9a-f]+", "", repr(v))[:400])


def summary():
    """The public face of all loaded modules of the package."""
    out = {}
    for name in modules():
        m = sys.modules.get(name)
        if m is not None:
            out[name] = {k: describe(v) for k, v in sorted(vars(m).items()) if not k.startswith("__") and describe(v) is not None}
    return out


def doubles():
    """Classes and functions of the package of which there is more than one."""
    out = []
    for name in modules():
        for k, v in vars(sys.modules[name]).items():
            home = getattr(v, "__module__", None) if isinstance(v, type) or callable(v) else None
            if not isinstance(home, str) or not home.startswith("pylattica"):
                continue
            q = getattr(v, "__qualname__", "")
            other = getattr(sys.modules.get(home), q, v) if q.isidentifier() else v
            if other is not v:
                out.append(f"{name}.{k} is not {home}.{q}")
    return out


def behaviour():
    """A few small computations that touch every part."""
    from pylattica.core import AsynchronousRunner, BasicController, Simulation, SimulationResult, SimulationState, SynchronousRunner
    from pylattica.discrete import DiscreteResultAnalyzer, PhaseSet
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as occ
    from pylattica.models.game_of_life import GameOfLifeController, Life
    from pylattica.models.growth import GrowthController
    from pylattica.structures.honeycomb import HoneycombNeighborhoodBuilder, HoneycombTilingBuilder
    from pylattica.structures.square_grid import DiscreteGridSetup, MooreNbHoodBuilder
    from pylattica.visualization import DiscreteCellArtist, SquareGridArtist2D
    random.seed(5)
    np.random.seed(5)
    out = []
    sim = DiscreteGridSetup(PhaseSet(["a", "b", "bg"])).setup_random_sites(9, 4, "bg", {"a": 1, "b": 2})
    res = SynchronousRunner().run(sim.state, GrowthController(PhaseSet(["a", "b", "bg"]), sim.structure, "bg"), 2)
    out.append(repr(res.as_dict()))
    out.append(SimulationResult.from_dict(res.as_dict()).last_step == res.last_step)
    out.append(sorted(DiscreteResultAnalyzer(res).all_phases()))
    st = SimulationState()
    for s in sim.structure.site_ids:
        st.set_site_state(s, {occ: "alive" if s % 3 == 0 else "dead"})
    out.append(repr(SynchronousRunner().run(st, GameOfLifeController(sim.structure, Life), 2).last_step.as_dict()))
    art = SquareGridArtist2D(sim.structure, DiscreteCellArtist.from_phase_list(["a", "b", "bg"]))
    out.append(zlib.crc32(art.get_img(sim.state, cell_size=2).tobytes()))
    honey = HoneycombTilingBuilder().build(2)
    out.append([sorted(HoneycombNeighborhoodBuilder().get(honey).neighbors_of(s)) for s in honey.site_ids])
    out.append([MooreNbHoodBuilder(1).get(sim.structure).neighbors_of(5), isinstance(GameOfLifeController(sim.structure), BasicController)])
    loaded = Simulation.from_dict(Simulation(st, sim.structure).as_dict())
    out.append(loaded.state == st)

    class Next(BasicController):
        def get_state_update(self, site_id, prev_state):
            return {occ: "x"}
    out.append(repr(AsynchronousRunner().run(st, Next(), 3).last_step.as_dict()))
    return out


def reference():
    """Summary and behaviour after an ordinary import, from a process of its own."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = None
            try:
                for m in modules():
                    importlib.import_module(m)
                out = ("ok", summary(), behaviour(), doubles())
            except BaseException as e:  # noqa
                out = ("failed", m, f"{type(e).__name__}: {e}", None)
            with os.fdopen(wfd, "wb") as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


# ---------------------------------------------------------------------------------------------------------------------
class ModuleLock:
    """The import system's lock of one module, for simulated threads.

    The rules are those of importlib._bootstrap, but a thread imports the package before it takes the lock of a module in it.
    (Python does it the other way round, for which two threads that import a package and a module of it may deadlock and fail,
    whatever the package is like.)  So a deadlock is one of modules that need each other.
    """

    waiting = {}
    held = {}

    def __init__(self, name):
        self.name = name
        self.owner = None
        self.count = 0

    def acquire(self):
        me = get_ident()
        w = W.current
        sched = w.threads if w is not None else None
        if sched is not None and sched.cur is not None and sched.cur.ident == me:
            W.yield_point("import lock")
            package = self.name.rpartition(".")[0]
            if package.startswith("pylattica"):
                m = sys.modules.get(package)
                if m is None or m.__spec__._initializing and self.held.get(package) != me:
                    importlib.import_module(package)
            while self.count and self.owner != me:
                other, lock = self.owner, None
                seen = set()
                while True:
                    lock = self.waiting.get(other)
                    if lock is None or other in seen:
                        break
                    seen.add(other)
                    other = lock.owner
                    if other == me:
                        w.probe("import_deadlock_broken")
                        raise _bootstrap._DeadlockError(f"deadlock detected by {self.name}")
                self.waiting[me] = self
                try:
                    sched.block_until(lambda: not self.count, f"import of {self.name}")
                finally:
                    self.waiting.pop(me, None)
        elif self.count and self.owner != me:
            raise W.HarnessError("an import lock is held by a thread that is gone")
        self.owner = self.held[self.name] = me
        self.count += 1
        return True

    def release(self):
        if self.owner != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = self.held[self.name] = None


class Files:
    """Source files (and what was compiled from them) that cannot be read."""

    def __init__(self):
        self.bad = ()

    def install(self, w):
        real = _external.FileLoader.get_data

        def get_data(loader, path):
            if loader.name in self.bad:
                w.fault("source_read_error")
                w.ev(f"cannot read {os.path.basename(path)}")
                raise OSError(5, "Input/output error", path)
            return real(loader, path)
        _external.FileLoader.get_data = get_data


def effects():
    return {"random numbers": zlib.crc32(repr((random.getstate(), np.random.get_state())).encode()),
            "working directory": os.getcwd(), "files": sorted(os.listdir(".")), "environment": dict(os.environ),
            "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGALRM)],
            "threads": threading.active_count(), "worker processes": len(multiprocessing.active_children()),
            "start method": multiprocessing.get_start_method(allow_none=True), "umask": mask(),
            "recursion limit": sys.getrecursionlimit(), "hooks": (sys.excepthook, sys.displayhook)}


def mask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def gen_step(ch, names):
    # not "import a.b as x": Python itself fails on that when b is there and the import of a was interrupted
    m = ch.pick(names)
    k = ch.weighted(5, 4, 1, 2)
    public = [n for n, d in REF[1].get(m, {}).items() if not n.startswith("_")]
    if k == 1 and public:
        n = ch.pick(public)
        return f"from {m} import {n}"
    if k == 2:
        return f"from {m} import *"
    if k == 3:
        return f"import_module('{m}')"
    return f"import {m}"


def perform(step):
    exec(step, {"__name__": "user", "import_module": importlib.import_module})


def run(w):
    ch = w.ch
    if REF[0] != "ok":
        w.fail("import_failed", f"importing {REF[1]} after the modules before it in the alphabet: {REF[2]}")
    assert not any(m.startswith("pylattica") for m in sys.modules)
    _bootstrap._ModuleLock = ModuleLock
    multiprocessing.context._default_context._actual_context = None
    files = Files()
    files.install(w)
    every = modules()
    # packages and modules alike; some runs are about few of them
    names = ch.shuffled(every)[:ch.between(1, 5)] if ch.flip(500) else every
    before = effects()
    printed = io.StringIO()
    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = printed
    done = []
    try:
        episodes = ch.between(1, 4)
        for _ in range(episodes):
            kind = ch.weighted(2, 3, 5, 3)
            steps = [gen_step(ch, names) for _ in range(ch.between(1, 4))]
            done.append(f"{('in turn', 'threads', 'interrupts', 'unreadable files')[kind]}: " + "; ".join(steps))
            w.ev(done[-1])
            if kind == 0:
                for s in steps:
                    attempt(w, s, done)
            elif kind == 1:
                groups = [[gen_step(ch, names) for _ in range(ch.between(1, 2))] for _ in range(ch.between(2, 3))]
                done[-1] = "threads: " + " || ".join("; ".join(g) for g in groups)
                w.ev(done[-1])
                outs = T.Scheduler(w, opcodes=False).run([lambda g=g: [perform(s) for s in g] for g in groups])
                for g, (_, e) in zip(groups, outs):
                    if e is not None:
                        w.fail("import_failed", f"{'; then '.join(done)}: the thread of {'; '.join(g)}: {type(e).__name__}: {e}")
            else:
                for s in steps:
                    try:
                        if kind == 2:
                            T.Interrupter(w, at=ch.position(400), fresh=ch.flip(500)).run(lambda: perform(s))
                        else:
                            files.bad = ch.shuffled(every)[:ch.between(1, 4)]
                            perform(s)
                    except KeyboardInterrupt:
                        w.ev(f"{s} interrupted")
                    except OSError:
                        w.ev(f"{s} failed")
                    finally:
                        files.bad = ()
                    if ch.flip(400):
                        attempt(w, s, done)
        for m in (ch.shuffled(every) if ch.flip(500) else every):
            attempt(w, f"import {m}", done)
    finally:
        sys.stdout, sys.stderr = out, err
    w.nontrivial = w.nontrivial or not any(s.endswith(FIRST) for s in done[0].split("; ")[:1])
    w.sample = "; then ".join(done)
    after = effects()
    for k in before:
        w.check(before[k] == after[k], "side_effect", lambda: f"{w.sample}: importing changed the {k}: {str(before[k])[:200]} -> {str(after[k])[:200]}")
    w.check(not printed.getvalue(), "side_effect", lambda: f"{w.sample}: importing printed {printed.getvalue()[:300]!r}")
    got = summary()
    for m in every:
        a, b = got.get(m), REF[1].get(m)
        w.check(a == b, "names_differ", lambda: f"{w.sample}: {m} then has other contents: "
                + "; ".join(f"{k}: {(a or {}).get(k)} instead of {(b or {}).get(k)}" for k in sorted(set(a or {}) | set(b or {}))
                            if (a or {}).get(k) != (b or {}).get(k))[:600])
    two = [d for d in doubles() if d not in REF[3]]
    w.check(not two, "object_twice", lambda: f"{w.sample}: {two[:4]}")
    sys.stdout = sys.stderr = io.StringIO()
    try:
        got = behaviour()
    finally:
        sys.stdout, sys.stderr = out, err
    w.check(got == REF[2], "behaviour_differs", lambda: f"{w.sample}: afterwards results differ: "
            + next(f"{str(a)[:200]} instead of {str(b)[:200]}" for a, b in zip(got, REF[2]) if a != b))
    w.value = zlib.crc32(repr(REF[1]).encode())


def attempt(w, step, done):
    """An import that must succeed."""
    try:
        perform(step)
    except Exception as e:
        w.fail("import_failed", f"{'; then '.join(done)}: {step}: {type(e).__name__}: {e}")


REF = reference()

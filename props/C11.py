import os

from pylattica.core import SimulationResult

from sim import clock as C
from sim import fs as F
from sim import threads as T
from . import workloads as L
from .C09 import states, describe

ID = "C11"
QUICK = 8000
THOROUGH = 60000
RULE = ("sequences of automatically named saves of different results, from one to three threads preempted at any line and file "
        "operation, under a standing, ticking, jumping or receding clock, next to unrelated files, files from earlier sessions and "
        "saves hit by storage faults or process death. Non-trivial: two saves got the same time, or threads were switched, or a fault fired.")


def make(ch, tag):
    st = L.gen_state(ch, ch.between(1, 3))
    st.set_general_state({"tag": tag})
    res = SimulationResult(st)
    for _ in range(ch.draw(3)):
        res.add_step(L.random_update(ch, st.site_ids())[0])
    return res


class Book:
    """What every file must contain."""

    def __init__(self, w):
        self.w = w
        self.saved = {}          # real path -> states
        self.foreign = {}        # real path -> bytes

    def note(self, name, want, before, what):
        w = self.w
        w.check(isinstance(name, str) or hasattr(name, "__fspath__"), "no_name", f"{what}: returned {name!r}, not a file name")
        p = os.path.realpath(name)
        w.check(os.path.isfile(p), "no_file", f"{what}: no file {name!r} exists")
        w.check(p not in before, "overwritten", f"{what}: saved to {name!r}, which existed already")
        w.check(p not in self.saved, "overwritten", f"{what}: returned {name!r}, already used by an earlier save")
        self.saved[p] = want

    def verify(self, what):
        w = self.w
        for p, data in self.foreign.items():
            w.check(os.path.isfile(p), "removed", f"{what}: the file {os.path.basename(p)} is gone")
            w.check(F.real_read(p) == data, "overwritten", f"{what}: the existing file {os.path.basename(p)} was changed")
        for p, want in self.saved.items():
            w.check(os.path.isfile(p), "removed", f"{what}: the earlier save {os.path.basename(p)} is gone")
            try:
                got = states(SimulationResult.from_file(p))
            except Exception as e:
                w.fail("load_failed", f"{what}: {os.path.basename(p)} cannot be loaded: {type(e).__name__}: {e}")
            w.check(got == want, "overwritten", lambda: f"{what}: {os.path.basename(p)} does not hold the result that was saved "
                    f"to it: " + describe(got, want))


def listing():
    return {os.path.realpath(os.path.join(d, x)) for d, _, fs in os.walk(".") for x in fs}


def run(w):
    ch = w.ch
    clk = C.choose(w)
    w.fs.bufsize = ch.pick((None, 64, 700))
    book = Book(w)
    F.real_write("notes.json", b"keep me")
    book.foreign[os.path.realpath("notes.json")] = b"keep me"
    tag = 0
    ops = []
    # saves of an earlier session: other files whose names the clock may produce again
    if ch.flip(400):
        for _ in range(ch.between(1, 3)):
            wall = clk.wall
            name = make(ch, "earlier").to_file()
            data = ch.pick((b"", b"{}", b"other data\n" * 5))
            F.real_write(name, data)
            book.foreign[os.path.realpath(name)] = data
            if ch.flip(700):
                clk.wall = wall
        ops.append(f"{len(book.foreign) - 1} earlier files")
    for _ in range(ch.between(1, 5)):
        k = ch.weighted(100, 80, 40, 6)
        before = listing()
        if k == 0:
            tag += 1
            res = make(ch, tag)
            want = states(res)
            name = res.to_file()
            book.note(name, want, before, f"save {tag}")
            ops.append("save")
        elif k == 1:
            rs = [make(ch, tag + i + 1) for i in range(ch.between(2, 3))]
            if ch.flip(150):
                rs[1] = rs[0]
            tag += len(rs)
            wants = [states(r) for r in rs]
            sched = T.Scheduler(w)
            outs = sched.run([r.to_file for r in rs])
            for i, (name, e) in enumerate(outs):
                if e is not None:
                    raise e
                book.note(name, wants[i], before, f"save {i} of {len(rs)} concurrent ones")
            ops.append(f"{len(rs)} concurrent saves")
        elif k == 3:
            # something saves in a loop
            res = [make(ch, tag + 1), make(ch, tag + 2)]
            tag += 2
            wants = [states(r) for r in res]
            times = ch.pick((12, 33, 105))
            for i in range(times):
                book.note(res[i % 2].to_file(), wants[i % 2], before, f"save {i} of {times} in a row")
                before = before | set(book.saved)
            ops.append(f"{times} saves in a row")
        else:
            tag += 1
            res = make(ch, tag)
            kind = ch.pick(("crash", "enospc", "eio", "openfail"))
            w.fs.arm(kind, ch.draw(8), part=ch.pick((0, 500, 1000)), sticky=ch.flip(500))
            out = F.in_child(res.to_file)
            w.fs.disarm()
            ops.append(f"save hit by {kind}: {out[0]}")
            if out[0] == "done":
                book.note(out[1], states(res), before, "save")
            else:   # whatever it left is an existing file from now on
                for p in listing() - before:
                    book.foreign[p] = F.real_read(p)
        w.ev(ops[-1])
        book.verify(ops[-1])
        if ch.flip(300):
            clk.advance(ch.pick((1.0, 59.0, 61.0, 0.5)))
        if ch.flip(200):
            back = ch.pick((1.0, 60.0, 3600.0, 86400.0 * 366))
            clk.wall -= back
            w.fault("clock_set_back")
    names = sorted(os.path.basename(p) for p in book.saved)
    w.nontrivial = w.nontrivial or len(names) > 1
    w.sample = f"clock {clk.mode}: " + "; ".join(ops) + f" -> {names}"

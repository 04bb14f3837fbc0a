from pylattica.core import SimulationResult

from sim import pool as P
from sim import threads as T
from . import workloads as L

ID = "C08"
QUICK = 9000
THOROUGH = 60000
RULE = ("a result (recorded by hand in every documented form, or by a run) and a random sequence of operations on it: read a step, "
        "first, last, iterate fully / partly / interleaved, preload with an interval, record further steps, update a handed-out "
        "state, any of the readers interrupted at a drawn line, or several reader threads at once. Every value read is compared with the "
        "fold of the recorded changes. Non-trivial: a preload, an interrupt or a preemption happened before a read.")


class Hist:
    def __init__(self, w):
        self.w = w
        ch = w.ch
        self.model = []
        if ch.flip(250):
            P.choose_config(w)
            w.pool_cfg.max_active = 3
            case = L.Case(w, max_sites=6, small=True)
            self.res = case.run()
            self.model = [(s, g) for s, g in case.want]
            self.desc = f"result of {case!r}"
        else:
            st = L.gen_state(ch, ch.between(1, 6))
            self.model = [L.plain(st)]
            self.res = SimulationResult(st)
            for _ in range(ch.pick((2, 0, 1, 3, 5, 9, 20))):
                self.add()
            self.desc = f"result with {len(self.model) - 1} recorded steps"
        self.handed = []

    def add(self):
        ch = self.w.ch
        obj, sites, gen = L.random_update(ch, list(self.model[0][0]))
        self.res.add_step(obj)
        self.model.append(L.apply_model(self.model[-1], sites, gen))
        return f"add_step({obj})"

    def eq(self, k, got, how):
        want = self.model[k]
        self.w.check(L.same(got, want), "wrong_state", lambda: f"{self.desc}: {how} gives a wrong state for step {k} of "
                     f"{len(self.model) - 1}: {L.describe_diff(got, want)}")

    # readers; each returns a description
    def read(self, k=None):
        k = self.w.ch.draw(len(self.model)) if k is None else k
        s = self.res.get_step(k)
        self.eq(k, L.plain(s), "get_step")
        self.handed.append(s)
        return f"get_step({k})"

    def ends(self):
        self.eq(0, L.plain(self.res.first_step), "first_step")
        s = self.res.last_step
        self.eq(len(self.model) - 1, L.plain(s), "last_step")
        self.handed.append(s)
        return "first/last"

    def length(self):
        n = len(self.res)
        self.w.check(n == len(self.model), "wrong_length", f"{self.desc}: len is {n}, expected {len(self.model)}")
        return "len"

    def iterate(self):
        """All steps; each must be a state of its own, also if an earlier one is updated meanwhile."""
        ch = self.w.ch
        n = len(self.model)
        touch = ch.draw(n + 1) - 1 if ch.flip(300) else -1
        kept = []
        j = -1
        for j, s in enumerate(self.res.steps()):
            self.w.check(j < n, "too_many_steps", f"{self.desc}: iterating yields more than {n} steps")
            self.eq(j, L.plain(s), "iteration")
            if j == touch:
                L.mutate_state(ch, s)
            else:
                kept.append((j, s))
        self.w.check(j == n - 1, "steps_missing", f"{self.desc}: iterating yields {j + 1} steps, {n} expected")
        for j, s in kept:
            self.eq(j, L.plain(s), "a state kept from an iteration")
        return f"iterate(touch={touch})"

    def iterate_two(self):
        a, b = iter(self.res.steps()), iter(self.res.steps())
        n = len(self.model)
        i = j = 0
        while i < n or j < n:
            if j >= n or (i < n and not self.w.ch.flip(500)):
                s, k, i = next(a, None), i, i + 1
            else:
                s, k, j = next(b, None), j, j + 1
            self.w.check(s is not None, "steps_missing", f"{self.desc}: an iteration ended before step {k} of {n - 1}")
            self.eq(k, L.plain(s), "interleaved iterations")
        return "two iterations"

    def partial(self):
        stop = self.w.ch.draw(len(self.model))
        for j, s in enumerate(self.res.steps()):
            self.eq(j, L.plain(s), "partial iteration")
            if j == stop:
                break
        return f"iterate until {stop}"

    def load(self):
        iv = self.w.ch.pick((1, 2, 3, 5, 7, len(self.model)))
        self.res.load_steps(iv)
        self.w.nontrivial = True
        return f"load_steps({iv})"

    READERS = ("read", "ends", "length", "iterate", "iterate_two", "partial", "load")


def run(w):
    ch = w.ch
    h = Hist(w)
    w.ev("case: " + h.desc)
    ops = []
    for _ in range(ch.between(2, 12)):
        k = ch.weighted(8, 2, 2, 3, 2)
        if k == 0:
            op = getattr(h, h.READERS[ch.weighted(5, 2, 1, 2, 1, 1, 4)])()
        elif k == 1:
            op = h.add()
        elif k == 2:
            if h.handed:
                L.mutate_state(ch, ch.pick(h.handed))
                op = "update of a handed-out state"
            else:
                op = h.read()
        elif k == 3:
            name = h.READERS[ch.weighted(4, 2, 0, 3, 0, 0, 6)]
            it = T.interrupter(w, 60 * len(h.model), 40)
            try:
                it.run(getattr(h, name))
                op = f"{name} (interrupt never reached)"
            except KeyboardInterrupt:
                op = f"{name} interrupted in {it.fired}"
        else:
            names = [h.READERS[ch.weighted(4, 2, 1, 2, 1, 1, 4)] for _ in range(ch.between(2, 3))]
            sched = T.Scheduler(w)
            outs = sched.run([getattr(h, n) for n in names])
            for v, e in outs:
                if e is not None:
                    raise e
            op = "threads " + " || ".join(str(v) for v, _ in outs)
        ops.append(op)
        w.ev(op)
    for k in range(len(h.model)):
        h.read(k)
    h.ends()
    h.iterate()
    w.sample = h.desc + ": " + "; ".join(ops)

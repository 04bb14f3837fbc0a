import gc

import matplotlib.pyplot as plt

from pylattica.core import AsynchronousRunner, SimulationResult, SimulationState, SynchronousRunner
from pylattica.core.constants import GENERAL, SITES, SITE_ID
from pylattica.discrete import PhaseSet
from pylattica.discrete.discrete_state_result_analyzer import DiscreteResultAnalyzer
from pylattica.discrete.discrete_step_analyzer import DiscreteStepAnalyzer
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
from pylattica.structures.square_grid import MooreNbHoodBuilder, SimpleSquare2DStructureBuilder
from pylattica.models.growth import GrowthController  # noqa (importing it first fails: circular import)

from sim import pool as P
from sim import threads as T
from . import workloads as L

ID = "C18"
QUICK = 1000
THOROUGH = 40000
RULE = ("a result with discrete occupancies (recorded by hand in every documented form, short or several hundred steps long, reloaded, or "
        "from growth runs) and a random sequence of operations: record further steps, read, iterate, preload, analyse with one or several "
        "analyzers, any of them interrupted at a drawn line, and several at once in threads. Every phase set, fraction, count and plotted "
        "trace is compared with the fold of the recorded changes. Non-trivial: an analysis, a preload or an interrupt preceded a later one.")
NAMES = ("A", "B", "C", "VACANT", "a long phase", "D", "0")


class Hist:
    def __init__(self, w, like=None):
        ch = w.ch
        self.w = w
        self.names = ch.shuffled(NAMES)[:ch.between(1, len(NAMES))]
        kind = ch.weighted(6, 2, 2) if like is None else 0
        if kind == 2:
            size = (ch.between(3, 4), ch.between(3, 4))
            struct = SimpleSquare2DStructureBuilder().build(size)
            st = SimulationState()
            for s in struct.site_ids:
                st.set_site_state(s, {OCC: ch.pick(self.names) if ch.flip(200) else "bg"})
            ctrl = GrowthController(PhaseSet(self.names), struct, background_phase="bg", nb_builder=MooreNbHoodBuilder(1))
            P.choose_config(w)
            w.pool_cfg.max_active = 3
            n = ch.between(1, 5)
            par = ch.flip(300)
            if ch.flip(300):
                self.res = AsynchronousRunner().run(st, ctrl, n * 5)
            else:
                self.res = SynchronousRunner(parallel=par, workers=2).run(st, ctrl, n)
            occ = {s: st.get_site_state(s)[OCC] for s in st.site_ids()}
            self.model = [dict(occ)]
            for d in self.res._diffs:
                for s, v in (d.get(SITES) if SITES in d else d).items():
                    if v and OCC in v:
                        occ[s] = v[OCC]
                self.model.append(dict(occ))
            self.desc = f"result of a growth run of {len(self.res) - 1} steps"
        else:
            n = ch.between(1, 6) if like is None else like[0]
            ids = L.gen_ids(ch, n)
            st = SimulationState()
            occ = {}
            for i in ids:
                occ[i] = ch.pick(self.names)
                st.set_site_state(i, {OCC: occ[i], "w": ch.draw(3)})
            self.model = [occ]
            self.res = SimulationResult(st)
            steps = ch.pick((2, 0, 1, 4, 7, 12)) if kind == 0 else ch.pick((99, 100, 101, 148, 149, 150, 151, 199, 200, 201, 249, 251, 299, 305))
            if like is not None:
                steps = like[1]
            for _ in range(steps):
                self.add(sparse=kind == 1)
            self.desc = f"result with {steps} recorded steps"
            if ch.flip(200):
                self.res = SimulationResult.from_dict(self.res.as_dict())
                self.desc += " (reloaded)"
        self.analyzers = [DiscreteResultAnalyzer(self.res)]
        self.analysed = 0

    # model
    def phases(self):
        return {p for st in self.model for p in st.values()}

    def share(self, k, p):
        st = self.model[k]
        return sum(1 for v in st.values() if v == p) / len(st)

    def count(self, k, p):
        return sum(1 for v in self.model[k].values() if v == p)

    def say(self, what):
        return f"{self.desc} ({len(self.model)} states now), analyses before: {self.analysed}: {what}"

    def near(self, a, b):
        return isinstance(a, (int, float)) and abs(a - b) < 1e-12

    # operations
    def add(self, sparse=False):
        ch = self.w.ch
        occ = dict(self.model[-1])
        ids = list(occ)
        sites = {}
        for _ in range(ch.pick((1, 0, 2, 3)) if not sparse else ch.pick((0, 0, 0, 1))):
            s = ch.pick(ids)
            if not sparse and ch.flip(60):
                s = max(ids) + 1 + ch.draw(2)
            if s in occ and ch.flip(150):
                sites.setdefault(s, {})["w"] = ch.draw(5)
                continue
            p = f"new{len(self.model)}" if ch.flip(60) else ch.pick(self.names)
            sites.setdefault(s, {})[OCC] = p
            occ[s] = p
        form = ch.draw(3)
        if form == 0 and sites:
            upd = sites
        elif form == 1:
            upd = {SITES: sites}
        else:
            upd = {SITES: sites, GENERAL: {"t": ch.draw(4)}}
        self.res.add_step(upd)
        self.model.append(occ)
        return f"add_step({upd})"

    def analyzer(self):
        ch = self.w.ch
        if ch.flip(150):
            self.analyzers.append(DiscreteResultAnalyzer(self.res))
        return self.analyzers[ch.draw(len(self.analyzers))]

    def all_phases(self):
        got = self.analyzer().all_phases()
        self.w.check(set(got) == self.phases() and len(list(got)) == len(set(got)), "wrong_phases",
                     lambda: self.say(f"all_phases is {sorted(got)}, expected {sorted(self.phases())}"))
        self.analysed += 1
        return "all_phases"

    def final(self):
        got = self.analyzer().final_phase_fractions()
        want = {p: self.share(len(self.model) - 1, p) for p in self.phases()}
        self.w.check(set(got) == set(want) and all(self.near(got[p], want[p]) for p in want), "wrong_final_fractions",
                     lambda: self.say(f"final_phase_fractions is {dict(sorted(got.items()))}, expected {dict(sorted(want.items()))}"))
        self.w.check(abs(sum(got.values()) - 1) < 1e-9, "not_one", lambda: self.say(f"final fractions {got} sum to {sum(got.values())}"))
        self.analysed += 1
        return "final_phase_fractions"

    def at(self):
        ch = self.w.ch
        k = ch.draw(len(self.model))
        p = ch.pick(sorted(self.phases()) + ["absent"])
        got = self.analyzer().phase_fraction_at(k, p)
        self.w.check(self.near(got, self.share(k, p)), "wrong_fraction",
                     lambda: self.say(f"phase_fraction_at({k}, {p}) is {got}, expected {self.share(k, p)}"))
        return f"phase_fraction_at({k}, {p})"

    def plot(self):
        ch = self.w.ch
        kw = {}
        low = 0.01
        if ch.flip(500):
            low = ch.pick((0.0, 0.2, 0.5, 0.01, -1.0))
            kw = {"min_prevalence": low}
        fig = self.analyzer().plot_phase_fractions(**kw)
        seen = {}
        xs_all = set()
        for t in fig.data:
            self.w.check(t.name not in seen, "trace_twice", lambda: self.say(f"two traces for {t.name}"))
            xs, ys = list(t.x), list(t.y)
            seen[t.name] = True
            self.w.check(t.name in self.phases(), "trace_phase", lambda: self.say(f"a trace for {t.name}, which never occurs"))
            self.w.check(len(xs) == len(ys) and len(xs) > 0 and all(0 <= x < len(self.model) and int(x) == x for x in xs), "trace_steps",
                         lambda: self.say(f"trace of {t.name} has x {xs[:10]} and {len(ys)} values"))
            for x, y in zip(xs, ys):
                self.w.check(self.near(float(y), self.share(int(x), t.name)), "trace_value",
                             lambda: self.say(f"plotted share of {t.name} at step {x} is {y}, expected {self.share(int(x), t.name)}"))
            xs_all |= set(int(x) for x in xs)
        if xs_all:
            o = sorted(xs_all)
            gap = max([b - a for a, b in zip(o, o[1:])], default=1)
            self.w.check(o[0] == 0 and o[-1] + gap >= len(self.model), "trace_ends", lambda: self.say(
                f"the plot has the steps {o[0]} to {o[-1]}, at most {gap} apart, of {len(self.model)}"))
            for p in self.phases():
                top = max(self.share(k, p) for k in xs_all)
                self.w.check((p in seen) == (top > low), "trace_set", lambda: self.say(
                    f"largest plotted share of {p} is {top}, min_prevalence {low}, but trace present: {p in seen}"))
        else:
            top = max(self.share(0, p) for p in self.phases())
            self.w.check(top <= low, "trace_set", lambda: self.say(f"no trace at all, min_prevalence {low}"))
        self.analysed += 1
        return f"plot_phase_fractions({kw})"

    def counts(self):
        plt.close("all")
        plt.figure()
        self.analyzer().plot_phase_counts()
        lines = plt.gca().lines
        self.w.check(len(lines) == 1, "counts_plot", self.say(f"{len(lines)} lines plotted"))
        got = list(zip(*(list(map(float, v)) for v in lines[0].get_data())))
        want = [(float(k), float(len(set(st.values())))) for k, st in enumerate(self.model)]
        plt.close("all")
        self.w.check(got == want, "wrong_counts", lambda: self.say(
            f"plotted phase counts {[g for g, x in zip(got, want) if g != x][:3]}, expected {[x for g, x in zip(got, want) if g != x][:3]}"
            f" ({len(got)} points for {len(want)} states)"))
        self.analysed += 1
        return "plot_phase_counts"

    def step(self):
        """The per-step analyses on a state taken from the result."""
        ch = self.w.ch
        k = ch.draw(len(self.model))
        st = self.res.get_step(k)
        an = DiscreteStepAnalyzer()
        got = sorted(an.phases_present(st))
        want = sorted(set(self.model[k].values()))
        self.w.check(got == want, "wrong_present", lambda: self.say(f"phases_present of step {k} is {got}, expected {want}"))
        self.w.check(an.phase_count(st) == len(want), "wrong_present", lambda: self.say(f"phase_count of step {k} is {an.phase_count(st)}"))
        p, q = ch.pick(want), ch.pick(want)
        self.w.check(an.cell_count(st, p) == self.count(k, p), "wrong_count", lambda: self.say(f"cell_count({p}) at {k}: {an.cell_count(st, p)}"))
        self.w.check(self.near(an.cell_ratio(st, p, q), self.count(k, p) / self.count(k, q)), "wrong_ratio",
                     lambda: self.say(f"cell_ratio({p}, {q}) at {k}: {an.cell_ratio(st, p, q)}"))
        total = sum(an.cell_fraction(st, x) for x in want)
        self.w.check(abs(total - 1) < 1e-9, "not_one", lambda: self.say(f"fractions of step {k} sum to {total}"))
        return f"step analysis of {k}"

    def read(self):
        k = self.w.ch.draw(len(self.model))
        s = self.res.get_step(k)
        s.set_site_state(self.w.ch.pick(s.site_ids()), {OCC: "scribble"})
        return f"get_step({k}), updated by the caller"

    def load(self):
        iv = self.w.ch.pick((1, 2, 3, 5, 7, len(self.model)))
        self.res.load_steps(iv)
        return f"load_steps({iv})"

    def iterate(self):
        n = sum(1 for _ in self.res.steps())
        self.w.check(n == len(self.model), "steps_missing", self.say(f"{n} steps iterated"))
        return "iterate"

    ANALYSES = ("all_phases", "final", "at", "plot", "step", "counts")
    OTHER = ("read", "load", "iterate", "add")


def brief(w):
    """Many short-lived results of one length, each analysed and forgotten."""
    ch = w.ch
    steps, op = ch.between(0, 3), ch.pick(("all_phases", "final", "plot", "at"))
    w.sample = f"short-lived results of {steps} steps, {op} asked of each"
    w.ev(w.sample)
    w.nontrivial = True
    for j in range(ch.between(3, 12)):
        h = Hist(w, (2, steps))
        getattr(h, op)()
        del h


def run(w):
    if w.ch.flip(60):
        return brief(w)
    like = one(w, None)
    while w.ch.flip(150):
        # the earlier result is forgotten; another one, maybe of the same length
        gc.collect()
        w.nontrivial = True
        like = one(w, like if w.ch.flip(700) and like[1] < 90 else None)


def one(w, like):
    ch = w.ch
    h = Hist(w, like)
    w.ev("case: " + h.desc)
    ops = []
    if like is not None:
        h.all_phases()
        h.final()
    big = len(h.model) > 90
    for _ in range(ch.between(2, 4 if big else 9)):
        k = ch.weighted(8, 5, 3, 2)
        if k == 0:
            op = getattr(h, h.ANALYSES[ch.weighted(6, 5, 3, 4, 2, 2)])()
        elif k == 1:
            op = getattr(h, h.OTHER[ch.weighted(1, 2, 1, 6)])()
            w.nontrivial = w.nontrivial or h.analysed > 0
        elif k == 2:
            name = ch.pick(("all_phases", "final", "plot", "at", "load"))
            it = T.interrupter(w, 60 * len(h.model), 40)
            try:
                it.run(getattr(h, name))
                op = f"{name} (interrupt never reached)"
            except KeyboardInterrupt:
                h.analysed += 1
                op = f"{name} interrupted in {it.fired}"
        else:
            names = [ch.pick(("all_phases", "final", "at", "plot", "step", "load", "iterate")) for _ in range(2)]
            for v, e in T.Scheduler(w).run([getattr(h, n) for n in names]):
                if e is not None:
                    raise e
            op = "threads " + " || ".join(names)
        ops.append(op)
        w.ev(op)
    h.all_phases()
    h.final()
    h.at()
    h.plot()
    h.step()
    w.sample = h.desc + ": " + "; ".join(o[:80] for o in ops)
    return len(h.model[0]), len(h.model) - 1

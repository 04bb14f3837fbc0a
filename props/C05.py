from sim import pool as P
from sim import threads as T
from . import C15, C16
from . import workloads as L

ID = "C05"
QUICK = 4000
THOROUGH = 16000
RULE = ("2-4 caller threads of one process each run one or two simulations (parallel, serial, asynchronous; shared or separate "
        "runner objects and starting states; also growth and life-like automata), preempted at lines or opcodes of pylattica and at every pool operation; each "
        "result is compared with the sequential reference of that run alone. Non-trivial: at least one preemption between runs.")


def models(w):
    """The library's own models next to each other and to other runs."""
    ch = w.ch
    P.choose_config(w)
    w.pool_cfg.max_active = min(w.pool_cfg.max_active, 3)
    kinds = [ch.draw(3) for _ in range(ch.pick((2, 3)))]
    kinds[0] = max(kinds[0], 1)
    alike = ch.flip(500)
    if alike:
        kinds = kinds[:1] * len(kinds)
    cases = [L.Case(w, max_sites=6, small=True) if k == 0 else C15.Growth(w) if k == 1 else C16.Game(w) for k in kinds]
    if alike:
        for c in cases:
            if kinds[0] == 1:
                if c.mode == "parallel":
                    c.mode = "serial"
            else:
                c.parallel = False
    if kinds[0] == 1 and kinds[1] == 1 and ch.flip(400):
        # the same controller for two runs at a time
        cases[1] = C15.Growth.__new__(C15.Growth)
        cases[1].__dict__.update(cases[0].__dict__)
        cases[1].mode = ch.pick(("serial", "parallel", "async"))
        cases[1].desc += f" (and {cases[1].mode} with the same controller)"
    w.sample = " || ".join(getattr(c, "desc", None) or repr(c) for c in cases)
    w.ev("case: " + w.sample)
    sched = T.Scheduler(w)
    outs = sched.run([c.run for c in cases])
    w.nontrivial = sched.switches > 0
    for i, (c, (res, e)) in enumerate(zip(cases, outs)):
        if e is not None:
            raise e
        c.check(res, f"thread {i}: ")


def run(w):
    if w.ch.flip(200):
        return models(w)
    ch = w.ch
    P.choose_config(w)
    w.pool_cfg.max_active = min(w.pool_cfg.max_active, 3)
    n = ch.pick((2, 3, 2, 4))
    shared_state = L.gen_state(ch, ch.between(2, 6)) if ch.flip(300) else None
    groups = []
    shared_runner = {}
    share = ch.flip(400)
    for i in range(n):
        cases = []
        for _ in range(1 + ch.flip(250)):
            c = L.Case(w, state=shared_state, max_sites=6, small=True)
            cases.append(c)
        groups.append(cases)
    w.sample = " || ".join(" then ".join(map(repr, g)) for g in groups) + (" (shared state)" if shared_state is not None else "")
    w.ev("case: " + w.sample)
    for g in groups:
        for c in g:
            key = (c.mode, c.workers if c.mode == "parallel" else None)
            if share and key in shared_runner:
                c.use = shared_runner[key]
                w.probe("shared_runner")
            else:
                c.use = shared_runner.setdefault(key, c.runner()) if share else c.runner()

    def body(g):
        return [c.run(runner=c.use) for c in g]

    sched = T.Scheduler(w)
    outs = sched.run([lambda g=g: body(g) for g in groups])
    w.nontrivial = sched.switches > 0
    for i, ((value, exc), g) in enumerate(zip(outs, groups)):
        if exc is not None:
            raise exc
        for c, res in zip(g, value):
            c.check(res, f"thread {i}: ", "wrong_step_concurrent")
            out = L.plain(res.output)
            w.check(L.same(out, c.want[-1]), "wrong_output_concurrent", lambda: f"thread {i}: {c!r}: output state: "
                    + L.describe_diff(out, c.want[-1]))
            w.check(L.same(L.plain(c.state), c.start), "input_changed_concurrent", lambda: f"thread {i}: {c!r}")

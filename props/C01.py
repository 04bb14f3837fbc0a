import gc

from pylattica.core import SynchronousRunner

from sim import pool as P
from . import workloads as L

ID = "C01"
QUICK = 3500
THOROUGH = 40000
RULE = ("random starting state, update rule and number of steps, run in series and/or in parallel; the simulated pool decides "
        "task assignment, durations, completion order and replacement of idle workers. Non-trivial: a parallel run with at "
        "least two workers and two steps, or a fault fired.")


def gen_workers(ch, n):
    return (2, 1, 3, 4, n, n + 3, 7, 16, None)[ch.draw(9)]


def run(w):
    prev = one(w)
    while w.ch.flip(180):
        # further runs in the same process: another state with as many sites, the same runner or controller
        w.nontrivial = True
        prev = one(w, prev)


def one(w, prev=None):
    ch = w.ch
    big = prev is None and ch.flip(15)
    n = (ch.between(500, 1200) if ch.flip(120) else ch.between(80, 160)) if big else None
    if prev is not None and ch.flip(700):
        n = prev[0]
    st = L.gen_state(ch, n, ids=list(range(n)) if big else None)
    spec = L.gen_spec(ch, ("neighbor", "copy")) if big else L.gen_spec(ch)
    if big and n > 200:
        spec.kind, spec.sparse = "count", 1
        spec.gen = None if spec.gen in ("sum", "split") else spec.gen
    steps = ch.between(1, 3 if n < 200 else 2) if big else ch.pick((2, 1, 3, 4, 5, 8, 12))
    if not big and st.size <= 4 and ch.flip(30):
        steps = ch.between(40, 150)
    parallel = not ch.flip(150)
    c = P.choose_config(w)
    workers = gen_workers(ch, max(1, st.size))
    start = L.plain(st)
    what = f"{st.size} sites, {spec}, {steps} steps, parallel={parallel}, workers={workers}, cpus={c.cpus}"
    w.sample = what if prev is None else w.sample + " then " + what
    w.ev("case: " + what)
    want = L.model_steps(spec, start, steps)
    runner = SynchronousRunner(parallel=parallel, workers=workers) if parallel else SynchronousRunner()
    ctrl = L.RuleController(spec)
    if prev is not None:
        if ch.flip(400):
            runner = prev[1]
        if ch.flip(400):
            ctrl = prev[2]
            ctrl.spec = spec
        if ch.flip(300):
            prev = None
            gc.collect()
    res = L.quiet_run(runner, st, ctrl, steps, verbose=ch.flip(60))
    eff = workers or c.cpus
    if parallel and eff > 1 and st.size > 1 and steps > 1:
        w.nontrivial = True
    tasks = {}
    for idx, wk in c.decision_log:
        tasks[wk] = tasks.get(wk, 0) + 1
    if parallel and len(tasks) > 1 and len(set(tasks.values())) > 1:
        w.probe("uneven_assignment")
    if any(a == b for a, b in zip(want, want[1:])):
        w.probe("step_without_change")
    L.compare_history(w, res, want, w.sample)
    w.ev(f"final {L.digest(*want[-1])}")
    return st.size, runner, ctrl

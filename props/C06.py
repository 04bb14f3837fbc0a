from pylattica.core import AsynchronousRunner

from . import workloads as L

ID = "C06"
QUICK = 14000
THOROUGH = 80000
RULE = ("an asynchronous run with a scripted site supplier (single sites, lists with repetitions, running dry) and updates that "
        "name follow-up sites and touch other sites, in all documented forms; the controller records each request, visit and a "
        "digest of the whole state it saw. Non-trivial: at least two visits.")
STUB = ["the controller (scripted; all its decisions are drawn from the seed)"]


def run(w):
    ch = w.ch
    st = L.gen_state(ch)
    start = L.plain(st)
    ids = list(start[0])
    spec = L.gen_async_spec(ch)
    if ch.flip(60):
        spec.asks = 0
    steps = ch.between(20, 150) if ch.flip(60) or spec.burst and ch.flip(500) else ch.between(1, 14)
    w.sample = f"{len(ids)} sites, {steps} steps, {spec}"
    w.ev("case: " + w.sample)
    states, visits, qlen = L.model_async(spec, start, steps)
    ctrl = L.AsyncController(spec, ids)
    runner = AsynchronousRunner()
    if spec.asks == 0:
        w.probe("no_site_at_start")
        try:
            runner.run(st, ctrl, steps)
        except Exception:
            return
        w.fail("no_error_without_sites", f"{w.sample}: the controller supplied no site, but the run returned normally")
    res = L.quiet_run(runner, st, ctrl, steps, verbose=ch.flip(30))
    got_visits = [(s, d) for k, s, d in ctrl.events if k == "visit"]
    for i, (s, d) in enumerate(got_visits):
        w.check(i < len(visits), "extra_visit", f"{w.sample}: visit {i} of site {s} should not happen; expected visits {visits}")
        w.check(s == visits[i], "wrong_order", f"{w.sample}: visit {i} went to site {s}, expected {visits[i]} (expected {visits})")
        w.check(d == L.digest(*states[i]), "stale_view", f"{w.sample}: the update of visit {i} (site {s}) did not see all earlier updates")
    w.check(len(got_visits) == len(visits), "stopped_early",
            f"{w.sample}: {len(got_visits)} visits, {len(visits)} expected ({visits})")
    v = 0
    for k, s, d in ctrl.events:
        if k == "visit":
            v += 1
        elif v < len(qlen):
            w.check(qlen[v] == 0, "asked_too_early", f"{w.sample}: the controller was asked for sites after {v} visits although "
                    f"{qlen[v]} sites were waiting")
    L.compare_history(w, res, states, w.sample)
    w.nontrivial = len(visits) > 1
    w.ev(f"visits {visits}")
    w.probe("ran_dry", int(len(visits) < steps))
    w.probe("follow_ups", int(any(qlen)))

import os

from sim import pool as P
from sim import threads as T
from . import workloads as L

ID = "C04"
QUICK = 3200
THOROUGH = 40000
RULE = ("a run (parallel, serial, asynchronous) hit by one failure: the rule raises at a drawn site and step, starting a worker "
        "fails, a worker dies in the middle of a batch, or an interrupt at an arbitrary line or pool wait; then reruns with the same and new runners "
        "and controllers. Non-trivial: the failure fired.")


def run(w):
    ch = w.ch
    c = P.choose_config(w)
    case = L.Case(w)
    if case.steps == 0:
        case.steps = 1
        case.want = (L.model_async(case.spec, case.start, 1)[0] if case.mode == "async" else L.model_steps(case.spec, case.start, 1))
    runner = case.runner()
    ctrl = L.failing_controller(case)
    kind = ch.weighted(6, 4, 4, 2, 1, 1)
    parallel = case.mode == "parallel"
    if kind >= 3 and not parallel:
        kind = 0
    names = ("rule error", "interrupt at a line", "interrupt at a wait", "worker start failure", "worker death", "undecodable rule error")
    w.sample = f"{names[kind]} in {case!r}"
    w.ev("case: " + w.sample)
    expect = None
    it = None
    if kind in (0, 5):
        k = ch.draw(max(1, len(case.want) - 1))
        err = L.UndecodableError if kind == 5 else ch.pick(L.ERRORS)
        if case.mode == "async":
            vis = L.model_async(case.spec, case.start, case.steps)[1]
            sid = vis[k] if k < len(vis) else None
            if sid is None:
                return
        else:
            sid = ch.pick(case.ids)
        once, away = ch.flip(300), parallel and ch.flip(300)
        ctrl.arm(sid, L.digest(*case.want[k]), err, once, os.getpid() if away else None)
        if once or away:
            w.sample += " (" + "once " * once + "in a worker only" * away + ")"
        expect = L.make_error(err, sid)
    elif kind in (1, 2):
        it = T.interrupter_for(w, lambda: case.run(runner=case.runner(), controller=L.failing_controller(case)),
                               1000 if kind == 2 else 0)
    elif kind == 3:
        c.start_fail_at = w.probes.get("forks", 0) + ch.draw(max(1, min(c.max_active, case.workers or c.cpus)))
        c.replace_permille = 0
    elif kind == 4:
        c.kill_at = ch.draw(max(1, 2 * case.steps))
    res, exc = None, None
    try:
        if it is not None:
            res = it.run(lambda: case.run(runner=runner, controller=ctrl))
        else:
            res = case.run(runner=runner, controller=ctrl)
    except (Exception, KeyboardInterrupt) as e:
        exc = e
    w.ev(f"outcome: {type(exc).__name__ if exc is not None else 'returned'}")
    fired = bool(w.faults.get("worker_start_failure") or w.faults.get("worker_killed_mid_task") or (it is not None and it.fired)
                 or (expect is not None and exc is not None))
    w.nontrivial = w.nontrivial or fired
    if kind in (0, 5):
        w.fault("rule_error")
        w.check(exc is not None, "error_lost", f"{w.sample}: the rule raised {expect!r}, but the run returned a result")
        # Python itself turns a StopIteration that passes a generator into a RuntimeError
        turned = isinstance(expect, StopIteration) and type(exc) is RuntimeError
        turned = turned or kind == 5 and isinstance(exc, Exception)      # that error cannot be handed over as it is
        w.check(turned or type(exc) is type(expect) and exc.args == expect.args, "wrong_error",
                f"{w.sample}: the rule raised {expect!r}, the caller got {exc!r}")
    elif it is not None:
        if it.fired:
            w.check(exc is not None, "interrupt_lost", f"{w.sample}: the interrupt was swallowed")
            w.check(isinstance(exc, KeyboardInterrupt), "wrong_error", f"{w.sample}: interrupted, the caller got {exc!r}")
        elif exc is not None:
            raise exc
    elif kind == 3 and w.faults.get("worker_start_failure"):
        w.check(exc is not None, "error_lost", f"{w.sample}: a worker could not be started, but the run returned a result")
        w.check(isinstance(exc, OSError), "wrong_error", f"{w.sample}: the caller got {exc!r}")
    elif kind == 4 and w.faults.get("worker_killed_mid_task"):
        w.check(exc is not None, "error_lost", f"{w.sample}: a worker died in the middle of its work, but the run returned a result")
    elif exc is not None:
        raise exc
    if exc is None:
        case.check(res)
    if kind != 1:
        n = P.live_workers(w)
        w.check(n == 0, "workers_left", f"{w.sample}: {n} worker processes are still running after the run ended with {exc!r}")
    else:
        P.reset(w)
    w.check(L.same(L.plain(case.state), case.start), "input_changed", f"{w.sample}: the starting state changed")
    # afterwards everything works again
    c.start_fail_at = c.kill_at = None
    exc = None
    for again in range(2):
        if again == 0 and ch.flip(700):
            ctrl.armed = None
            if case.mode == "async":
                ctrl.reset()
            r = case.run(runner=runner, controller=ctrl)
        else:
            r = case.run()
        L.compare_history(w, r, case.want, f"rerun {again} after {w.sample}", "wrong_rerun")
        n = P.live_workers(w)
        w.check(n == 0, "workers_left", f"{w.sample}: {n} worker processes are still running after a completed rerun")

from sim import pool as P
from sim import threads as T
from . import workloads as L

ID = "C03"
QUICK = 4000
THOROUGH = 40000
RULE = ("a history: run(s) from one starting state that finish, fail in the rule or are interrupted at an arbitrary line or pool "
        "wait; then reads, preloads, reruns and updates of the starting state, output states and handed-out states. After every "
        "operation every recorded step of every finished result is compared with its value when the run returned. Non-trivial: "
        "at least one update of a state after a run, a failing or an interrupted run.")


def snapshot(res):
    return [L.plain(s) for s in (res.get_step(k) for k in range(len(res)))]


def verify(w, results, op):
    for i, (res, want, desc) in enumerate(results):
        w.check(len(res) == len(want), "history_changed", lambda: f"after {op}: result {i} ({desc}) has {len(res)} steps instead of {len(want)}")
        for name, k in (("last_step", -1), ("first_step", 0)):
            got = L.plain(getattr(res, name))
            w.check(L.same(got, want[k]), "history_changed", lambda: f"after {op}: {name} of result {i} ({desc}) changed: "
                    + L.describe_diff(got, want[k]))
        for k in range(len(want)):
            got = L.plain(res.get_step(k))
            w.check(L.same(got, want[k]), "history_changed", lambda: f"after {op}: step {k} of result {i} ({desc}) changed: "
                    + L.describe_diff(got, want[k]))


def attempt(w, start_state, case, ops):
    """One run (finishing, failing or interrupted); the start state must not change."""
    ch = w.ch
    before = L.plain(start_state)
    how = ch.weighted(5, 2, 2)
    ctrl = L.failing_controller(case)
    res = None
    if how == 1 and case.ids and case.steps:
        k = ch.draw(len(case.want))
        ctrl.arm(ch.pick(case.ids), L.digest(*case.want[k]), ch.pick(L.ERRORS))
        desc = f"failing {case!r}"
        try:
            res = case.run(controller=ctrl, state=start_state)
        except Exception as e:
            w.fault("rule_error")
            w.ev(f"rule error {type(e).__name__}")
    elif how == 2:
        it = T.interrupter_for(w, lambda: case.run(controller=L.failing_controller(case), state=start_state), 400)
        desc = f"interrupted {case!r}"
        try:
            res = it.run(lambda: case.run(controller=ctrl, state=start_state))
        except KeyboardInterrupt:
            pass
        P.reset(w)
    else:
        desc = repr(case)
        res = case.run(controller=ctrl, state=start_state)
    after = L.plain(start_state)
    w.check(L.same(before, after), "input_changed", lambda: f"{desc}: the starting state changed: {L.describe_diff(after, before)}")
    ops.append(desc)
    return res, desc


def run(w):
    ch = w.ch
    P.choose_config(w)
    w.pool_cfg.max_active = min(w.pool_cfg.max_active, 4)
    long = ch.flip(50)
    start = L.gen_state(ch, ch.between(1, 3 if long else 7))
    results, handed, ops = [], [start], []
    nops = ch.between(2, 5 if long else 9)
    w.sample = "history of %d operations on %d sites" % (nops, start.size)
    for step in range(nops):
        k = 0 if not results else ch.weighted(2, 3, 4, 2, 1)
        if k == 0:
            case = L.Case(w, state=start, small=True, steps=ch.between(30, 130) if long and len(results) < 2 else None)
            res, desc = attempt(w, start, case, ops)
            op = desc
            if res is not None:
                want = snapshot(res)
                results.append((res, want, desc))
                handed.append(res.output)
                if ch.flip(300):
                    handed.append(res.first_step)
        elif k == 1:
            i = ch.draw(len(results))
            res = results[i][0]
            how = ch.draw(4)
            n = ch.draw(len(res))
            if how == 0:
                handed.append(res.get_step(n))
            elif how == 1:
                handed.append(res.last_step)
            elif how == 2:
                handed.append(res.first_step)
            else:
                for j, s in enumerate(res.steps()):
                    if j == n:
                        handed.append(s)
                        if ch.flip(500):
                            break
            op = f"read step {n} of result {i} (way {how})"
        elif k == 2:
            i = ch.draw(len(handed))
            if ch.flip(300):
                L.change_in_place(ch, handed[i], nested=i == 0)
            else:
                L.mutate_state(ch, handed[i])
            op = f"update of state {i}"
            w.nontrivial = True
        elif k == 3:
            i = ch.draw(len(results))
            iv = ch.between(1, 4)
            results[i][0].load_steps(iv)
            op = f"load_steps({iv}) of result {i}"
        else:
            i = ch.draw(len(results))
            res = results[i][0]
            c = L.plain(res.output)
            case = L.Case(w, state=res.output, small=True)
            r2, desc = attempt(w, res.output, case, ops)
            op = "run from an output state: " + desc
            if r2 is not None:
                results.append((r2, snapshot(r2), desc))
        w.ev(op)
        verify(w, results, op)
    w.probe("results", len(results))

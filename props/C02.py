from sim import pool as P
from . import workloads as L

ID = "C02"
QUICK = 4500
THOROUGH = 40000
RULE = ("a run (parallel, serial or asynchronous; random rule, state, workers, steps including zero) with a set-up hook that "
        "records its calls in a log shared by all processes and prepares a token every update must carry; pool schedule "
        "simulated. Non-trivial: at least one update happened under a simulated pool, or an asynchronous run of 2+ steps.")


class SetupMixin:
    token = None

    def pre_run(self, initial_state):
        got = L.plain(initial_state)
        L.log_call(L.W.current, f"pre_run {L.digest(*got)}")
        self.token = L.crc("token", L.digest(*got))
        self.table = {s: L.crc(s, self.token) for s in got[0]}

    marks = True

    def tokenize(self, sid, r):
        if not self.marks:
            return r
        tok = None if self.token is None else self.table.get(sid)
        mark = {"tok": tok}
        nxt = None
        if isinstance(r, tuple):
            r, nxt = r
        if r is None or r == {}:
            out = {sid: mark}
        elif L.SITES in r or L.GENERAL in r:
            sites = {s: dict(d) for s, d in r.get(L.SITES, {}).items()}
            sites.setdefault(sid, {}).update(mark)
            out = {L.SITES: sites, L.GENERAL: r.get(L.GENERAL, {})}
        elif all(isinstance(k, int) for k in r):
            out = {s: dict(d) for s, d in r.items()}
            out.setdefault(sid, {}).update(mark)
        else:
            out = {**r, **mark}
        return out if nxt is None else (out, nxt)


class SyncSetup(SetupMixin, L.RuleController):
    def get_state_update(self, site_id, prev_state):
        return self.tokenize(site_id, super().get_state_update(site_id, prev_state))


class AsyncSetup(SetupMixin, L.AsyncController):
    def get_state_update(self, site_id, prev_state):
        return self.tokenize(site_id, super().get_state_update(site_id, prev_state))


def strip(p):
    return ({s: {k: v for k, v in d.items() if k != "tok"} for s, d in p[0].items()}, p[1])


def run(w):
    ch = w.ch
    P.choose_config(w)
    case = L.Case(w)
    # the rules' decisions must not depend on the token: feed them stripped states
    case.spec = _Stripped(case.spec)
    w.sample = repr(case)
    w.ev("case: " + w.sample)
    marks = ch.flip(700)

    def make():
        c = AsyncSetup(case.spec, case.ids) if case.mode == "async" else SyncSetup(case.spec)
        c.marks = marks
        return c
    ctrl = make()
    if case.mode == "parallel" and case.steps and case.ids or case.mode == "async" and case.steps > 1:
        w.nontrivial = True
    runner = case.runner()
    first = _one(w, case, ctrl, marks, [], runner)
    if ch.flip(350):
        # the same controller, perhaps the same runner, another state
        again = L.Case(w, modes=(case.mode,))
        if ch.flip(300):
            again = L.Case(w, state=case.state, modes=(case.mode,))
        again.spec = ctrl.spec = _Stripped(again.spec)
        if case.mode == "async":
            ctrl.asks, ctrl.ids = 0, list(again.ids)
        w.ev("again: " + repr(again))
        w.nontrivial = True
        if ch.flip(500):
            runner = again.runner()
        else:
            w.ev("with the same runner")
        _one(w, again, ctrl, marks, [x for x in L.read_log(w) if x.startswith("pre_run")], runner, "second run of the controller: ")
        out = L.plain(first.output)
        w.check(L.same(out, L.plain(first.last_step)), "output_differs", "after another run, the output of the first is not its last step")


def _one(w, case, ctrl, marks, before, runner, prefix=""):
    res = case.run(runner, ctrl)
    what = prefix + repr(case)
    n = len(res)
    w.check(n == len(case.want), "wrong_length", f"{what}: {n - 1} steps recorded, {len(case.want) - 1} executed")
    w.check(L.same(L.plain(res.first_step), case.start), "wrong_first_step", lambda: f"{what}: "
            + L.describe_diff(L.plain(res.first_step), case.start))
    last = L.plain(res.last_step)
    w.check(L.same(strip(last), strip(case.want[-1])), "wrong_last_step", lambda: f"{what}: "
            + L.describe_diff(strip(last), case.want[-1]))
    out = L.plain(res.output)
    w.check(L.same(out, last), "output_differs", lambda: f"{what}: output state is not the last recorded step: "
            + L.describe_diff(out, last))
    log = [x for x in L.read_log(w) if x.startswith("pre_run")][len(before):]
    w.check(log == [f"pre_run {L.digest(*case.start)}"], "setup_calls", f"{what}: set-up hook calls: {log}, expected exactly one "
            f"with the starting state (pre_run {L.digest(*case.start)})")
    token = L.crc("token", L.digest(*case.start))
    w.check(ctrl.token == token, "setup_not_visible", f"{what}: the controller does not have what its set-up prepared")
    if marks:
        for k in range(1, n):
            st = L.plain(res.get_step(k))
            for s, d in st[0].items():
                if "tok" in d:
                    w.check(d["tok"] == L.crc(s, token), "setup_not_visible",
                            f"{what}: the update of site {s} at step {k} did not see what the set-up prepared")
            if case.mode != "async":
                w.check(all("tok" in d for d in st[0].values()), "update_missing", f"{what}: a site was not updated at step {k}")
    w.probe("zero_steps", int(case.steps == 0))
    w.probe("early_end", int(case.mode == "async" and n - 1 < case.steps))
    return res


class _Stripped:
    """A rule that ignores the token."""

    def __init__(self, spec):
        self.spec = spec

    def __repr__(self):
        return repr(self.spec)

    def ask(self, k, ids):
        return self.spec.ask(k, ids)

    def response(self, sid, ids, sites, general):
        sites, general = strip((sites, general))
        return self.spec.response(sid, ids, sites, general)

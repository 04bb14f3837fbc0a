"""Update rules, states and the sequential reference model shared by the properties of the runners."""
import contextlib
import copy
import io
import os
import zlib

from pylattica.core import AsynchronousRunner, BasicController, SimulationState, SynchronousRunner
from pylattica.core.constants import GENERAL, SITES, SITE_ID

from sim import world as W
from sim import pool as P
from sim import fs as F


def crc(*parts):
    return zlib.crc32(repr(parts).encode())


def plain(state):
    """(sites, general) of a state, through its public interface, as independent plain data."""
    sites = {sid: copy.deepcopy(state.get_site_state(sid)) for sid in state.site_ids()}
    return sites, copy.deepcopy(state.get_general_state())


def canon(x):
    if isinstance(x, dict):
        return "{" + ",".join(f"{canon(k)}:{canon(x[k])}" for k in sorted(x, key=lambda k: (str(type(k)), k))) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(v) for v in x) + "]"
    return repr(x)


def digest(sites, general):
    return zlib.crc32(canon((sites, general)).encode())


def describe_diff(got, want):
    gs, gg = got
    ws, wg = want
    out = []
    for sid in sorted(set(gs) | set(ws), key=repr):
        if sid not in gs:
            out.append(f"site {sid!r} missing")
        elif sid not in ws:
            out.append(f"site {sid!r} should not exist")
        elif gs[sid] != ws[sid]:
            out.append(f"site {sid}: got {gs[sid]!r}, expected {ws[sid]!r}")
        if len(out) >= 4:
            break
    if gg != wg:
        out.append(f"general state: got {gg!r}, expected {wg!r}")
    return "; ".join(out)


def same(got, want):
    return got[0] == want[0] and got[1] == want[1]


# ---------------------------------------------------------------------------------------------------------------------
def gen_ids(ch, n):
    style = ch.weighted(5, 2, 2, 1, 1)
    if style == 4:
        return ch.shuffled(range(-n, n))[:n]
    if style == 0:
        return list(range(n))
    if style == 1:
        return ch.shuffled(range(n))
    if style == 2:
        base = ch.between(1, 50)
        step = ch.between(1, 9)
        return [base + step * i for i in range(n)]
    ids = [1000003 * (i + 1) % 7919 * (1 if ch.flip(700) else -1) for i in range(n)]
    return list(dict.fromkeys(ids))


VALUES = (0, 1, 2, "a", "b", 1.5, None, True, [1, 2], {"k": [3]}, "\u03b1-Fe \u9244", "caf\u00e9\n\"x\"", 10**17 + 1, 1e-17, "\U0001f600")


def gen_state(ch, n=None, nested=True, ids=None):
    if n is None:
        n = ch.pick((4, 1, 2, 3, 5, 7, 9, 12, 16, 25)) if not ch.flip(25) else ch.pick((40, 64, 90, 130))
    if ids is None:
        ids = gen_ids(ch, n)
    st = SimulationState()
    for sid in ids:
        d = {"v": ch.draw(7)}
        if ch.flip(200):
            d["w"] = ch.draw(5)
        if nested and ch.flip(100):
            d["x"] = copy.deepcopy(ch.pick(VALUES))
        st.set_site_state(sid, d)
    if ch.flip(400):
        st.set_general_state({"t": ch.draw(5), "name": "g"})
    if ch.flip(60):
        # made from a dictionary that does not repeat the identifiers of the sites
        bare = ch.pick((0, 0, 300))
        st = SimulationState({SITES: {s: {k: v for k, v in st.get_site_state(s).items() if k != SITE_ID or ch.flip(300)}
                                      if not ch.flip(bare) else {} for s in ids},
                              GENERAL: dict(st.get_general_state())})
    return st


ODD = (None, 0, "", False, [], 7, {}, None, True, "text", -1.5, 0.0, "\u03b2", 2**53 + 1)


ALIKE = (1, True, 1.0, 2, 2.0, 0, False, 0.0)


class Spec:
    """A deterministic update rule.  `site` gives the change of one site (or None), `general` the change of the general
    state in a step; both are pure functions of the previous state."""

    def __init__(self, kind, salt, sparse, multi, general, forms, none_style, nested=False, quiet_from=None, whole=False):
        self.kind = kind
        self.salt = salt
        self.sparse = sparse
        self.multi = multi
        self.gen = general
        self.forms = forms
        self.none_style = none_style
        self.nested = nested
        self.quiet_from = quiet_from
        self.whole = whole

    def __repr__(self):
        return (f"Rule(kind={self.kind}, salt={self.salt}, sparse={self.sparse}, multi={self.multi}, general={self.gen}, "
                f"forms={self.forms}, none={self.none_style}, nested={self.nested}, whole={self.whole})")

    def site(self, sid, ids, sites, general):
        me = sites[sid]
        v = me.get("v", 0)
        if self.kind == "global":
            h = crc(self.salt, digest(sites, general), sid)
        elif self.kind == "neighbor":
            i = ids.index(sid)
            nb = [sites[ids[(i + d) % len(ids)]].get("v", 0) for d in (-1, 1, 2)]
            h = (sum(nb) * 3 + v * 5 + self.salt)
            new = h % 5
            return None if new == v else self._upd(new, h, me)
        elif self.kind == "copy":
            i = ids.index(sid)
            new = sites[ids[i - 1]].get("v", 0)
            return None if new == v else self._upd(new, new, me)
        elif self.kind == "still":
            return None
        elif self.kind == "alike":
            # every site goes on to the same value, told from the value before it by its type alone in most steps
            first = sites[ids[0]].get("v", 0)
            k = next((i for i, a in enumerate(ALIKE) if type(a) is type(first) and a == first), 0)
            return self._upd(ALIKE[(k + 1) % len(ALIKE)], 1, me)
        elif self.kind == "count":
            h = crc(self.salt, sid, v)
            if h % self.sparse:
                return None
            return self._upd(v + 1, h, me)
        elif self.kind == "one":
            # exactly one site changes per step, chosen by the whole state
            order = sorted(ids)
            k = crc(self.salt, digest(sites, general)) % len(order)
            if order[k] != sid:
                return None
            h = crc(self.salt, sid, digest(sites, general))
        else:
            raise AssertionError(self.kind)
        if self.sparse > 1 and h % self.sparse and self.kind != "one":
            return None
        return self._upd(h // 7 % 9, h, me)

    def _upd(self, v, h, me):
        d = {"v": v}
        if self.multi and h % 3 == 0:
            d["n"] = me.get("n", 0) + 1
        if self.multi and h % 5 == 0:
            d["s"] = f"s{h % 11}"
        if self.nested and h % 2 == 0:
            d["x"] = {"h": [h % 4, {"q": h % 3}]}
        if self.multi and h % 2 == 0:
            d["m"] = ODD[h // 2 % len(ODD)]
        # a rule may report everything about its site, changed or not
        return {**me, **d} if self.whole else d

    def general(self, ids, sites, general, sid=None):
        """What site sid reports (every site reports the same); the whole change of a step if sid is None."""
        if not self.gen:
            return None
        t = general.get("t", 0)
        if self.gen == "split":
            n = general.get("n", 0)
            d = {}
            for k, s in enumerate(ids):
                if sid is None or s == sid:
                    if crc(self.salt, s, n) % 3 == 0:
                        continue
                    d[f"part{k % 3}"] = ODD[crc(self.salt, k % 3, n) % len(ODD)]
                    d["n"] = n + 1
            return d or None
        if self.gen == "count":
            return {"t": t + 1}
        if self.gen == "sum":
            return {"t": t + 1, "sum": sum(s.get("v", 0) for s in sites.values())}
        if t >= 3:
            return None
        return {"t": t + 1}

    # the form in which the rule reports its change
    def response(self, sid, ids, sites, general):
        s = self.site(sid, ids, sites, general)
        g = self.general(ids, sites, general, sid)
        if g is not None and self.gen == "first" and sid != min(ids):
            g = None
        form = self.forms[crc(sid, self.salt) % len(self.forms)]
        if g is not None:
            if s is None:
                return {GENERAL: g} if form != "full" else {SITES: {}, GENERAL: g}
            return {SITES: {sid: s}, GENERAL: g}
        if s is None:
            if self.none_style == 0:
                return None
            if self.none_style == 1:
                return {}
            if self.none_style == 3:
                return ({sid: {}}, {SITES: {sid: {}}}, {SITES: {}}, {SITES: {}, GENERAL: {}})[crc(sid, self.salt) % 4]
            return ({} if crc(sid, digest(sites, general)) % 2 else None)
        if form == "site":
            return s
        if form == "id":
            return {sid: s}
        if form == "sites":
            return {SITES: {sid: s}}
        return {SITES: {sid: s}, GENERAL: {}}


def gen_spec(ch, kinds=("global", "neighbor", "copy", "one", "count", "still", "alike")):
    kind = kinds[ch.weighted(*([6, 4, 3, 4, 3, 1, 1][:len(kinds)]))]
    return Spec(kind, ch.draw(1000), ch.pick((1, 2, 3, 5, 9)), ch.flip(400), (None, None, "count", "sum", "stop", "first", "split")[ch.draw(7)],
                ch.pick((("site",), ("id",), ("sites",), ("full",), ("site", "id"), ("site", "id", "sites", "full"))),
                ch.draw(4), ch.flip(150), whole=ch.flip(150))


def model_steps(spec, start, n):
    """The n+1 states of the sequential reference."""
    sites, general = copy.deepcopy(start)
    out = [(copy.deepcopy(sites), copy.deepcopy(general))]
    for _ in range(n):
        ids = list(sites)
        new = copy.deepcopy(sites)
        for sid in ids:
            u = spec.site(sid, ids, sites, general)
            if u is not None:
                new[sid].update(copy.deepcopy(u))
        gnew = copy.deepcopy(general)
        if ids:
            gnew.update(spec.general(ids, sites, general) or {})
        sites, general = new, gnew
        out.append((copy.deepcopy(sites), copy.deepcopy(general)))
    return out


class RuleController(BasicController):
    """Applies a Spec; reads the state only through its public interface."""

    def __init__(self, spec):
        self.spec = spec
        self.token = None
        self.memo = (None, None)

    def get_state_update(self, site_id, prev_state):
        ids = prev_state.site_ids()
        sites = {s: prev_state.get_site_state(s) for s in ids}
        return self.spec.response(site_id, ids, sites, prev_state.get_general_state())


def quiet_run(runner, state, controller, steps, verbose):
    """A run, without the messages of a verbose one."""
    if not verbose:
        return runner.run(state, controller, steps)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return runner.run(state, controller, steps, verbose=True)


def states_of(result, w, how=None):
    """All recorded steps, as plain data."""
    return [plain(result.get_step(k)) for k in range(len(result))]


def compare_history(w, result, want, what, kind="wrong_step"):
    n = len(result)
    if n != len(want):
        w.fail("wrong_length", f"{what}: {n} states recorded, {len(want)} expected")
    for k in range(n):
        got = plain(result.get_step(k))
        if not same(got, want[k]):
            w.fail(kind, f"{what}: recorded step {k} of {n - 1} differs from the sequential reference: "
                   + describe_diff(got, want[k]))


def log_call(w, text):
    """A call log shared by all processes of the run."""
    import os
    fd = F._os["open"](w.log_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    F._os["write"](fd, (text + "\n").encode())
    F._os["close"](fd)


def read_log(w):
    try:
        return F.real_read(w.log_path).decode().split("\n")[:-1]
    except FileNotFoundError:
        return []


# ---------------------------------------------------------------------------------------------------------------------
class AsyncSpec:
    """A deterministic asynchronous rule: answers of the site supplier and updates are functions of the current state."""

    def __init__(self, salt, ask_style, asks, follow, touch, forms, general, none, burst=0, whole=False):
        self.burst = burst
        self.whole = whole
        self.salt, self.ask_style, self.asks, self.follow = salt, ask_style, asks, follow
        self.touch, self.forms, self.gen, self.none = touch, forms, general, none

    def __repr__(self):
        return (f"AsyncRule(salt={self.salt}, ask={self.ask_style}, asks={self.asks}, follow={self.follow}, touch={self.touch}, "
                f"forms={self.forms}, general={self.gen}, none={self.none})")

    def ask(self, k, ids):
        """Answer to the k-th request for sites."""
        if self.asks is not None and k >= self.asks:
            return [] if self.salt % 2 else None
        h = crc(self.salt, "ask", 0 if self.ask_style == "same" else k)
        one = ids[h % len(ids)]
        if self.ask_style == "int" or (self.ask_style == "mixed" and h % 3 == 0):
            return one
        n = 1 + h % 4 if self.burst == 0 else 5 + h % self.burst
        return [ids[crc(h, j) % len(ids)] for j in range(n)]

    def change(self, sid, ids, sites, general):
        """({site: change}, general change, follow-up sites, form)"""
        h = crc(self.salt, sid, digest(sites, general))
        upd = {}
        gen = None
        if not (self.none and h % self.none == 0):
            upd[sid] = {"v": h % 9}
            if h % 4 == 0:
                upd[sid]["c"] = sites[sid].get("c", 0) + 1
            if h % 3 == 0:
                upd[sid]["m"] = ODD[h // 7 % len(ODD)]
            if self.touch and h % 3:
                other = ids[h // 16 % len(ids)]
                if other != sid:
                    upd[other] = {"v": h // 64 % 9}
            if self.whole:
                upd = {s: {**sites[s], **d} for s, d in upd.items()}
        if self.gen and h % self.gen == 0:
            gen = {"t": general.get("t", 0) + 1}
        nxt = []
        if self.follow and h % self.follow == 0:
            nxt = [ids[crc(h, "n", j) % len(ids)] for j in range(1 + h // 3 % (self.burst or 3))]
        return upd, gen, nxt, self.forms[h // 5 % len(self.forms)]

    def response(self, sid, ids, sites, general):
        upd, gen, nxt, form = self.change(sid, ids, sites, general)
        if not upd and gen is None:
            r = None if crc(sid, self.salt) % 2 else {}
        elif gen is not None:
            r = {GENERAL: gen}
            if upd:
                r[SITES] = upd
        elif form == "site" and set(upd) == {sid}:
            r = upd[sid]
        elif form == "sites":
            r = {SITES: upd}
        elif form == "full":
            r = {SITES: upd, GENERAL: {}}
        else:
            r = upd
        if nxt or crc(sid, self.salt, 3) % 3 == 0:
            return (r, nxt)
        return r


def gen_async_spec(ch):
    return AsyncSpec(ch.draw(1000), ("mixed", "int", "list", "same")[ch.draw(4)], ch.between(1, 6) if ch.flip(350) else None,
                     ch.pick((0, 2, 3, 5)), ch.flip(500), ch.pick((("site",), ("id",), ("sites",), ("full",), ("site", "id", "sites"))),
                     ch.pick((0, 2, 3)), ch.pick((0, 2, 4)), ch.pick((20, 50)) if ch.flip(80) else 0, ch.flip(150))


def model_async(spec, start, n):
    """(states, visited sites, queue length after each visit incl. before the first) of the reference."""
    sites, general = copy.deepcopy(start)
    states = [(copy.deepcopy(sites), copy.deepcopy(general))]
    ids = list(sites)
    queue, visits, qlen = [], [], []
    asks = 0
    for _ in range(n):
        qlen.append(len(queue))
        if not queue:
            a = spec.ask(asks, ids)
            asks += 1
            if isinstance(a, int):
                queue.append(a)
            elif a:
                queue.extend(a)
        if not queue:
            break
        sid = queue.pop(0)
        visits.append(sid)
        upd, gen, nxt, _form = spec.change(sid, ids, sites, general)
        for s, d in upd.items():
            sites[s].update(copy.deepcopy(d))
        if gen:
            general.update(gen)
        queue.extend(nxt)
        states.append((copy.deepcopy(sites), copy.deepcopy(general)))
    else:
        qlen.append(len(queue))
    return states, visits, qlen


class AsyncController(BasicController):
    def __init__(self, spec, ids):
        self.spec = spec
        self.ids = list(ids)
        self.asks = 0
        self.events = []
        self.kept = {}

    def get_random_site(self, state):
        k = self.asks
        self.asks += 1
        self.events.append(("ask", None, None))
        a = self.spec.ask(k, self.ids)
        # a list that is supplied again is the same object
        return self.kept.setdefault(tuple(a), a) if isinstance(a, list) else a

    def get_state_update(self, site_id, prev_state):
        sites = {s: prev_state.get_site_state(s) for s in prev_state.site_ids()}
        general = prev_state.get_general_state()
        self.events.append(("visit", site_id, digest(sites, general)))
        return self.spec.response(site_id, self.ids, sites, general)


class Case:
    """One simulation to run: mode, rule, starting state, steps, and what must come out."""

    def __init__(self, w, state=None, modes=("parallel", "serial", "async"), max_sites=None, steps=None, small=False):
        ch = w.ch
        self.w = w
        self.mode = modes[ch.weighted(*([4, 2, 3][:len(modes)]))]
        self.state = state if state is not None else gen_state(ch, None if max_sites is None else 1 + ch.draw(max_sites))
        self.start = plain(self.state)
        self.ids = list(self.start[0])
        self.steps = steps if steps is not None else ch.pick((2, 1, 3, 4) if small else (2, 1, 3, 4, 5, 8, 0))
        if steps is None and not small and ch.flip(40):
            self.steps = ch.between(12, 30) if self.mode != "async" else ch.between(20, 120)
            if len(self.ids) > 30:
                self.steps = min(self.steps, 15)
        self.workers = (2, 1, 3, 4, max(1, len(self.ids)), 7, None)[ch.draw(7)]
        self.verbose = not small and ch.flip(30)
        if self.mode == "async":
            self.spec = gen_async_spec(ch)
            self.want = model_async(self.spec, self.start, self.steps)[0]
        else:
            self.spec = gen_spec(ch)
            self.want = model_steps(self.spec, self.start, self.steps)

    def __repr__(self):
        return f"{self.mode} run, {len(self.ids)} sites, {self.steps} steps, workers={self.workers}, {self.spec}"

    def runner(self):
        if self.mode == "async":
            return AsynchronousRunner()
        if self.mode == "serial":
            return SynchronousRunner()
        return SynchronousRunner(parallel=True, workers=self.workers)

    def controller(self):
        if self.mode == "async":
            return AsyncController(self.spec, self.ids)
        return RuleController(self.spec)

    def run(self, runner=None, controller=None, state=None):
        return quiet_run(runner or self.runner(), state if state is not None else self.state, controller or self.controller(), self.steps,
                         self.verbose)

    def check(self, result, what="", kind="wrong_step"):
        compare_history(self.w, result, self.want, f"{what}{self!r}", kind)


# ---------------------------------------------------------------------------------------------------------------------
class RuleError(Exception):
    pass


class RuleErrorWithState(Exception):
    """An error of the rule that survives pickling and carries data."""

    def __init__(self, message, data=None):
        super().__init__(message, data)
        self.data = data


class UndecodableError(Exception):
    """Pickles, but cannot be rebuilt from its args: the common mistake of user exceptions."""

    def __init__(self, a, b):
        super().__init__(f"{a}/{b}")


ERRORS = (RuleError, ValueError, KeyError, RuleErrorWithState, ZeroDivisionError, StopIteration, TypeError, OSError,
          NotImplementedError, AssertionError, IndexError, RuntimeError, AttributeError, MemoryError, RecursionError, TimeoutError, EOFError,
          BlockingIOError, InterruptedError, BrokenPipeError)


class FailingMixin:
    """Raises at one site when the state has a given digest (i.e. at one step), while armed."""
    armed = None
    once = False        # only the first time, in each process
    home = None         # the process in which it does not fail

    def arm(self, sid, dig, err, once=False, home=None):
        self.armed = (sid, dig, err)
        self.once, self.home = once, home

    def get_state_update(self, site_id, prev_state):
        if self.armed is not None:
            sid, dig, err = self.armed
            if site_id == sid and os.getpid() != self.home:
                sites = {s: prev_state.get_site_state(s) for s in prev_state.site_ids()}
                if digest(sites, prev_state.get_general_state()) == dig:
                    if self.once:
                        self.armed = None
                    raise make_error(err, sid)
        return super().get_state_update(site_id, prev_state)


def make_error(cls, sid):
    if cls is RuleErrorWithState:
        return cls("rule failed", sid)
    if cls is UndecodableError:
        return cls("rule", sid)
    if cls is OSError:
        return OSError(5, "rule failed")
    return cls("rule failed", sid)


class FailingRule(FailingMixin, RuleController):
    pass


class FailingAsync(FailingMixin, AsyncController):
    def reset(self):
        self.asks = 0
        self.events = []


def failing_controller(case):
    return FailingAsync(case.spec, case.ids) if case.mode == "async" else FailingRule(case.spec)


def random_update(ch, ids, n=None, new_sites=True):
    """A change in one of the documented forms; returns (object for the code, site changes, general changes)."""
    sites = {}
    for _ in range(ch.pick((1, 0, 2, 3)) if n is None else n):
        sid = ch.pick(ids)
        if new_sites and ch.flip(40):
            sid = max(ids) + 1 + ch.draw(3)
        d = {"v": ch.draw(9)}
        if ch.flip(300):
            d["w"] = copy.deepcopy(ch.pick(VALUES))
        if ch.flip(100):
            d = {}
        sites[sid] = d
    form = ch.weighted(4, 3, 3, 1)
    gen = {}
    if form == 0:
        obj = copy.deepcopy(sites)
    elif form == 1:
        obj = {SITES: copy.deepcopy(sites)}
    elif form == 2:
        gen = {"t": ch.draw(6)} if ch.flip(700) else {}
        obj = {SITES: copy.deepcopy(sites), GENERAL: dict(gen)}
    else:
        gen = {"t": ch.draw(6), "u": ch.draw(3)}
        sites = {}
        obj = {GENERAL: dict(gen)}
    return obj, sites, gen


def apply_model(p, sites, gen):
    """The state after a change, by the documented meaning."""
    s, g = copy.deepcopy(p)
    for sid, d in sites.items():
        if sid not in s:
            s[sid] = {SITE_ID: sid}
        s[sid].update(copy.deepcopy(d))
    g.update(copy.deepcopy(gen))
    return s, g


def change_in_place(ch, state, nested=False):
    """Changes the entries of a site, or values inside them, directly."""
    for sid in state.site_ids():
        d = state.get_site_state(sid)
        if ch.flip(500):
            d[ch.pick(("v", "w", "mut", "c"))] = 400 + ch.draw(50)
        for x in d.values() if nested else ():
            if isinstance(x, list):
                x.append("added")
            elif isinstance(x, dict):
                x["added"] = 1
    state.get_general_state()["t"] = 300 + ch.draw(9)


def mutate_state(ch, state):
    """Updates a state through its own operations."""
    ids = state.site_ids() or [0]
    k = ch.draw(5)
    if k == 0:
        state.set_site_state(ch.pick(ids), {"v": 100 + ch.draw(50), "mut": 1})
    elif k == 1:
        state.set_general_state({"t": 100 + ch.draw(50), "mut": 1})
    elif k == 2:
        state.batch_update({SITES: {s: {"v": 200 + ch.draw(9)} for s in ids}, GENERAL: {"mut": ch.draw(9)}})
    else:
        # one or several attributes, everything about the site included; perhaps twice
        sid = ch.pick(ids)
        d = {a: ch.draw(300) for a in ch.shuffled(("v", "w", "mut", "x", "c"))[:ch.between(1, 4)]}
        if ch.flip(400):
            d = {**state.get_site_state(sid), **d}
        for _ in range(ch.between(1, 2)):
            if k == 3:
                state.set_site_state(sid, dict(d))
            else:
                state.batch_update({sid: dict(d)} if ch.flip(500) else {SITES: {sid: dict(d)}})

import json
import os

from pylattica.core import SimulationResult

from sim import pool as P
from . import workloads as L
from . import storage as S

ID = "C09"
QUICK = 4500
THOROUGH = 40000
RULE = ("results produced by runs (parallel, serial, asynchronous) or recorded by hand in every documented form are saved and "
        "loaded, possibly over a previously saved result, in several generations, with failing, short, torn writes, process death at "
        "any file operation, failing reads, cut-off files and reordered mappings; everything that loads is compared with what was "
        "saved. Non-trivial: a storage fault, cut or reordering happened.")


def states(res):
    return [L.canon(L.plain(res.get_step(k))) for k in range(len(res))]


def describe(got, want):
    if len(got) != len(want):
        return f"{len(got)} steps instead of {len(want)}"
    for k, (g, x) in enumerate(zip(got, want)):
        if g != x:
            return f"step {k}: got {g[:300]}, expected {x[:300]}"
    return "?"


def make(w):
    ch = w.ch
    if ch.flip(500):
        P.choose_config(w)
        w.pool_cfg.max_active = 3
        case = L.Case(w, max_sites=6, small=True)
        return case.run(), repr(case)
    st = L.gen_state(ch, ch.between(1, 6))
    res = SimulationResult(st)
    for _ in range(ch.pick((2, 0, 1, 3, 6))):
        res.add_step(L.random_update(ch, st.site_ids())[0])
    return res, f"recorded result of {len(res)} steps"


def load_states(path):
    return states(SimulationResult.from_file(path))


def concurrent(w):
    ch = w.ch
    items = []
    for i in range(ch.between(2, 3)):
        res, what = make(w) if not items or ch.flip(800) else (last, what)
        last = res
        path = f"{i}.json" if ch.flip(700) else f"{i}.json.gz"
        items.append((f"{what} to {path}", lambda r=res, p=path: r.to_file(p), lambda p=path: load_states(p), states(res)))
    w.sample = "concurrently: " + " | ".join(x[0] for x in items)
    w.ev(w.sample)
    S.concurrent(w, items, describe)


def run(w):
    ch = w.ch
    if ch.flip(120):
        return concurrent(w)
    path = ch.pick(("res.json", "deep/er/res.json", "res.json.gz"))
    if "/" in path:
        os.makedirs(os.path.dirname(path))
    old = None
    for gen in range(ch.pick((1, 2, 3))):
        if gen and ch.flip(300) and old is not None:
            res, what = SimulationResult.from_file(path), "a loaded result, extended"
            for _ in range(ch.draw(3)):
                res.add_step(L.random_update(ch, res.initial_state.site_ids())[0])
        else:
            res, what = make(w)
        if ch.flip(200):
            res.load_steps(ch.between(1, 3))
        want = states(res)
        w.sample = f"{what} to {path}"
        back = json.loads(json.dumps(res.as_dict()))
        back = SimulationResult.from_dict(S.reorder(ch, back) if ch.flip(500) else back)
        w.check(states(back) == want, "dict_differs", lambda: f"{what}: from_dict(as_dict()) differs: "
                + describe(states(back), want))

        def load():
            r = SimulationResult.from_file(path)
            if not isinstance(r, SimulationResult):
                raise TypeError("not a result")
            return states(r)
        out = S.exercise(w, what, lambda: res.to_file(path), load, path, want, describe, old, text=path.endswith("json"))
        w.check(states(res) == want, "memory_changed", f"{what}: saving changed the result in memory")
        if ch.flip(250):
            # what was saved does not stay there: another result, no file or something else, and then the same result again
            how = ch.draw(4)
            w.ev(f"replaced way {how}")
            if how == 0:
                other, _ = make(w)
                other.to_file(path)
                w.check(load() == states(other), "load_differs", f"{what}: a result saved over it loads back different")
            elif how == 1:
                if os.path.exists(path):
                    os.remove(path)
            elif how == 2:
                S.F.real_write(path, b"something else")
            else:
                res.add_step({})
                res.to_file(path)
                want = states(res)
            try:
                res.to_file(path)
            except Exception as e:
                w.fail("save_failed", f"{what}: saving the same result again fails: {type(e).__name__}: {e}")
            try:
                got = load()
            except Exception as e:
                w.fail("load_failed", f"{what}: saved again, but loading fails: {type(e).__name__}: {e}")
            w.check(got == want, "load_differs", lambda: f"{what}: saved again, loaded back different: " + describe(got, want))
            old = want
        elif out == "returned":
            old = want
        else:
            # the result can still be saved
            res.to_file(path)
            w.check(load() == want, "load_differs", f"{what}: saving again after a failed save gives a different result")
            old = want

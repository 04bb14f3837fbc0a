"""Save / load under storage faults, shared by the persistence properties."""
import json
import os

from sim import fs as F
from sim import threads as T
from . import workloads as L


class Broken(Exception):
    pass


def reorder(ch, x):
    """The same JSON value with the entries of every mapping in another order."""
    if isinstance(x, dict):
        keys = list(x)
        style = ch.draw(4)
        if style == 1:
            keys.reverse()
        elif style == 2:
            keys.sort()
        elif style == 3:
            keys = ch.shuffled(keys)
        return {k: reorder(ch, x[k]) for k in keys}
    if isinstance(x, list):
        return [reorder(ch, v) for v in x]
    return x


def pick_plan(ch):
    """(kind, how) of the storage fault for one save."""
    return ("none", "enospc", "eio", "openfail", "crash", "crash_power")[ch.weighted(6, 3, 2, 1, 4, 4)]


def armed_save(w, save, kind, ops):
    """save() with a drawn fault; to be called in a child."""
    ch = w.ch
    at = ch.draw(max(1, ops))
    part = ch.pick((0, 500, 999, 1, 250, 1000))
    sticky = ch.flip(400)
    if kind == "crash_power":
        w.fs.arm("crash", at, part=part, power_loss=ch.pick((0, 500, 100, 900, 1000)))
    else:
        w.fs.arm(kind, at, part=part, sticky=sticky)

    def body():
        r = save()
        w.fs.disarm()
        return r
    return body


def concurrent(w, items, describe_state):
    """items: [(what, save, load, expected)], one thread each; every file must hold its own object afterwards."""
    w.fs.bufsize = w.ch.pick((None, 16, 64, 700))
    rounds = [w.ch.between(1, 2) for _ in items]

    def body(item, n):
        what, save, load, want = item
        out = []
        for _ in range(n):
            save()
            out.append(load())
        return out
    outs = T.Scheduler(w, fresh=550).run([lambda a=a, n=n: body(a, n) for a, n in zip(items, rounds)])
    for (what, _, load, want), (vals, e) in zip(items, outs):
        if e is not None:
            w.fail("save_failed", f"{what}, saved and loaded at the same time as others: {type(e).__name__}: {e}")
        for v in vals + [load()]:
            w.check(v == want, "load_differs", lambda: f"{what}, saved at the same time as others, loaded back different: "
                    + describe_state(v, want))
    w.fs.bufsize = None


def exercise(w, what, save, load, path, new, describe_state, old=None, text=True):
    """Saves under a drawn plan and judges everything that can be loaded afterwards.

    save() writes the object to path; load() returns a comparable value; new / old are the comparable values that may come
    out (old: what a previous save left there, or None)."""
    ch = w.ch
    fs = w.fs
    fs.bufsize = ch.pick((None, 16, 64, 700, 4096))
    kind = pick_plan(ch)
    before = F.real_read(path) if os.path.exists(path) else None
    w.ev(f"save {what} plan={kind} bufsize={fs.bufsize} previous={'yes' if before is not None else 'no'}")
    if kind == "none":
        if ch.flip(400):
            fs.arm(None, None, short=ch.between(1, 6))
        save()
        fs.disarm()
        outcome = "returned"
    else:
        def count():
            fs.arm(None, None)
            save()
            return fs.disarm()
        out = F.in_child(count)
        if out[0] != "done":
            w.fail("save_failed", f"{what}: saving to healthy storage: {out[1]}")
        ops = out[1]
        # restore what was there before the rehearsal
        if before is None:
            if os.path.exists(path):
                F._os["unlink"](path)
        else:
            F.real_write(path, before)
        out = F.in_child(armed_save(w, save, kind, ops))
        fs.disarm()
        fired = getattr(fs, "last_fired", None)
        w.ev(f"  outcome {out[0]} fault={fired}")
        if out[0] == "done":
            outcome = "returned"
        else:
            outcome = out[0]
            if out[0] == "raised" and fired is None and kind != "none":
                w.fail("save_failed", f"{what}: the save failed although no fault was injected: {out[1]}")
    if os.path.exists(path):
        data = F.real_read(path)
    else:
        data = None
    # loading
    if outcome == "returned":
        try:
            got = load()
        except Exception as e:
            w.fail("load_failed", f"{what}: the save returned normally, but loading fails: {type(e).__name__}: {e}")
        w.check(got == new, "load_differs", lambda: f"{what}: loaded back different: " + describe_state(got, new))
    else:
        try:
            got = load()
        except Exception:
            got = Broken
        if got is not Broken:
            w.check(got == new or (old is not None and got == old), "torn_accepted",
                    lambda: f"{what}: after a save that {outcome} (plan {kind}) the file loads as neither the new nor the "
                            f"previous content: " + describe_state(got, new))
        w.probe("load_after_failed_save_" + ("fails" if got is Broken else "new" if got == new else "old"))
        return outcome
    # a reader that meets a failing disk
    if ch.flip(300):
        def rcount():
            fs.arm(None, None, only=("read",))
            load()
            return fs.disarm()
        out = F.in_child(rcount)
        n = out[1] if out[0] == "done" else 1

        fs.arm("readerr", ch.draw(max(1, n)), only=("read",), sticky=ch.flip(500))
        out = F.in_child(load)
        fs.disarm()
        if out[0] == "done" and getattr(fs, "last_fired", None):
            w.check(out[1] == new, "read_error_lost",
                    lambda: f"{what}: a read failed, but loading returned different data: " + describe_state(out[1], new))
    # a store that cuts the file off
    if ch.flip(400) and data:
        cut = ch.draw(len(data))
        F.real_write(path, data[:cut])
        try:
            got = load()
        except Exception:
            got = Broken
        w.fault("file_cut_off")
        w.check(got is Broken or got == new, "torn_accepted",
                lambda: f"{what}: the file cut off after {cut} of {len(data)} bytes loads as different data: "
                        + describe_state(got, new))
        F.real_write(path, data)
    # a store that reorders the entries of mappings
    d = None
    if text and ch.flip(600):
        try:
            d = json.loads(data)
        except ValueError:
            w.probe("not_a_json_file")
    if d is not None:
        F.real_write(path, json.dumps(reorder(ch, d)).encode())
        w.fault("entries_reordered")
        try:
            got = load()
        except Exception as e:
            w.fail("load_failed", f"{what}: with reordered entries loading fails: {type(e).__name__}: {e}")
        w.check(got == new, "reorder_differs", lambda: f"{what}: loaded back different after a store reordered entries: "
                + describe_state(got, new))
    w.check(True, "", "")
    return outcome

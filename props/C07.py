from pylattica.core import AsynchronousRunner, BasicController

from sim import rng as R
from . import workloads as L

ID = "C07"
QUICK = 9000
THOROUGH = 20000
RULE = ("the default site choice on states with arbitrary integer identifiers (contiguous, permuted, offset, sparse, negative; "
        "sites added during the run), under fair and adversarial random sources, directly and through asynchronous runs; "
        "coverage and evenness with a fair source over many draws. Non-trivial: identifiers are not 0..n-1, or an adversarial source.")


class Visitor(BasicController):
    def __init__(self, add=None):
        self.visits = []
        self.add = add

    def get_state_update(self, site_id, prev_state):
        self.visits.append((site_id, site_id in prev_state.site_ids()))
        if self.add is not None and len(self.visits) == 3:
            return {self.add: {"v": 1}}
        return {"v": len(self.visits)}


def run(w):
    ch = w.ch
    n = ch.pick((3, 1, 2, 4, 5, 6, 8, 13))
    st = L.gen_state(ch, n)
    ids = st.site_ids()
    w.nontrivial = sorted(ids) != list(range(len(ids)))
    what = ch.weighted(5, 3, 2)
    w.sample = f"sites {ids}, way {what}"
    w.ev(w.sample)
    if what == 0:
        mode = R.choose_mode(w)
        add = max(ids) + 5 if ch.flip(300) else None
        c = Visitor(add)
        AsynchronousRunner().run(st, c, ch.between(1, 25))
        for sid, inside in c.visits:
            w.check(type(sid) is int or hasattr(sid, "__index__"), "not_a_site", f"{w.sample}: {sid!r} was chosen")
            w.check(inside, "not_a_site", f"{w.sample} ({mode}): site {sid!r} was chosen, which is not a site of the state")
        w.ev(f"visits {[v[0] for v in c.visits][:10]}")
        return
    if what == 1:
        c = Visitor()
        for _ in range(ch.draw(3)):
            # sites appear, other states are asked about in between
            c.get_random_site(st)
            if ch.flip(500):
                new = max(ids) + 1 + ch.draw(7)
                if ch.flip(500):
                    st.set_site_state(new, {"v": 0})
                else:
                    st.batch_update({new: {"v": 0}})
                ids.append(new)
            elif ch.flip(500):
                st = st.copy()
            else:
                other = L.gen_state(ch, ch.between(1, 5))
                s = c.get_random_site(other)
                w.check(s in other.site_ids(), "not_a_site", f"{w.sample}: {s!r} was chosen for another state with sites {other.site_ids()}")
            w.nontrivial = True
        reached = set()
        for mode in R.MODES:
            R.inst.set_mode(mode, ch.seed_value())
            for _ in range(12):
                s = c.get_random_site(st)
                for x in (s if isinstance(s, list) else [s]):
                    reached.add(x)
                    w.check(x in ids, "not_a_site", f"{w.sample} ({mode}): site {s!r} was chosen, which is not a site of the state")
        R.inst.set_mode("fair")
        for _ in range(400):
            if len(reached) == len(ids):
                break
            reached.add(c.get_random_site(st))
        w.check(reached == set(ids), "site_never_chosen", f"{w.sample}: sites {sorted(set(ids) - reached)} of {ids} were never chosen")
        return
    # coverage and evenness
    c = Visitor()
    draws = 1500 * len(ids)
    count = {s: 0 for s in ids}
    via_run = ch.flip(300)
    if via_run:
        draws = 400 * len(ids)
        AsynchronousRunner().run(st, c, draws)
        seq = [v[0] for v in c.visits]
    else:
        seq = [c.get_random_site(st) for _ in range(draws)]
    for s in seq:
        w.check(s in count, "not_a_site", f"{w.sample}: site {s!r} was chosen, which is not a site of the state")
        count[s] += 1
    missing = [s for s in ids if count[s] == 0]
    w.check(not missing, "site_never_chosen", f"{w.sample}: sites {missing} were never chosen in {draws} draws")
    e = len(seq) / len(ids)
    df = len(ids) - 1
    chi = sum((x - e) ** 2 / e for x in count.values())
    w.probe("evenness_tests")
    w.check(chi < df + 7 * (2 * df) ** 0.5 + 25, "uneven_choice", f"{w.sample}: choices are not even: {count} (chi2 {chi:.1f}, {df} degrees of freedom)")
    # nor do they depend on the one before
    pairs = {}
    for a, b in zip(seq[::2], seq[1::2]):
        pairs[a, b] = pairs.get((a, b), 0) + 1
    m = len(ids) ** 2
    e = (len(seq) // 2) / m
    if e >= 20:
        chi = sum((pairs.get((a, b), 0) - e) ** 2 / e for a in ids for b in ids)
        w.probe("pair_tests")
        w.check(chi < m - 1 + 7 * (2 * (m - 1)) ** 0.5 + 25, "uneven_choice", f"{w.sample}: the choice depends on the one before: "
                f"{pairs} (chi2 {chi:.1f}, {m - 1} degrees of freedom)")

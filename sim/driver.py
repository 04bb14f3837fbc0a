"""Runs the simulations of one property, minimises and reports.

usage: driver.py ID [--tier quick|thorough] [--runs N] [--seed N] [--replay FILE] [--log FILE] [--only I]
"""
import argparse
import ctypes
import gc
import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 18.0
WALL_LIMIT = 240.0
_time = time.time
_LIBC = ctypes.CDLL(None)


LIGHT = {f"C{i:02d}" for i in range(1, 12) if i != 5}


def bootstrap(prop):
    """Third-party modules first, then the seams, then the code under test."""
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    import numpy, rustworkx, monty.serialization, PIL.Image, PIL.ImageDraw, PIL.ImageFont, PIL.GifImagePlugin, PIL.PngImagePlugin  # noqa
    import PIL.ImageSequence, tqdm, json, gzip, bz2, lzma, pickle, multiprocessing.pool, concurrent.futures, uuid, secrets  # noqa
    import copy, datetime, multiprocessing.synchronize, resource  # noqa
    if prop not in LIGHT:
        import matplotlib.pyplot, plotly.graph_objects  # noqa
    PIL.Image.init()
    tqdm.tqdm.monitor_interval = 0
    tqdm.tqdm.get_lock()
    from . import clock, fs, pool, rng, threads, graph
    rng.install()
    clock.install()
    fs.install()
    pool.install()
    threads.install()
    graph.install()
    from . import world as W
    sys.path.insert(0, W.REPO_SRC)
    if prop == "C21":
        # its runs import the code under test themselves
        try:
            import pymatgen.core.structure  # noqa
        except ImportError:
            pass
        return
    import pylattica.core, pylattica.core.runner.synchronous_runner  # noqa
    assert pylattica.core.__file__.startswith(W.REPO_SRC), pylattica.core.__file__


def seed_string(prop, seed, i):
    return f"{seed}:{prop}:{i}"


def execute(mod, choices, base, opts=None):
    """One simulated run in the current (throw-away) process; returns the result record."""
    from . import clock, fs, rng, pool, graph
    from . import world as W
    from .choices import OutOfChoices
    w = W.World(choices)
    w.opts = opts or {}
    scratch = tempfile.mkdtemp(prefix="run", dir=base)
    w.scratch = os.path.join(scratch, "cwd")
    os.mkdir(w.scratch)
    os.chdir(w.scratch)
    w.log_path = os.path.join(scratch, "calls.log")
    w.fs = fs.FS(w.scratch)
    clock.begin_run()
    seed = w.run_seed = choices.seed_value()
    rng.begin_run(seed)
    env = w.opts.get("env_seed")
    graph.begin_run(seed if env is None else env)
    rec = {"status": "ok", "kind": None, "message": None}

    def finish():
        rec.update(choices=list(choices.log), trace=w.trace, faults=dict(w.faults), probes=dict(w.probes), now=w.now,
                   nontrivial=bool(w.nontrivial), sample=w.sample, known=w.known,
                   hash=hashlib.sha1("\n".join(w.trace).encode("utf8", "replace")).hexdigest()[:16],
                   value=getattr(w, "value", None))

    def on_cpu(signum, frame):
        rec.update(status="violation", kind="no_progress",
                   message=f"the run used more than {getattr(mod, 'CPU_LIMIT', CPU_LIMIT):g} s of CPU time (usual: well below one second); at "
                           + _where(frame))
        try:
            finish()
            _emit(rec)
        finally:
            os._exit(0)
    signal.signal(signal.SIGPROF, on_cpu)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CPU_LIMIT", CPU_LIMIT))
    W.set_current(w)
    try:
        mod.run(w)
    except W.Violation as e:
        rec.update(status="violation", kind=e.kind, message=e.message)
    except OutOfChoices:
        rec.update(status="violation", kind="no_progress", message="the run made more than "
                   f"{len(choices.log)} scheduling decisions without coming to an end")
    except W.HarnessError as e:
        rec.update(status="harness", kind="harness", message="".join(traceback.format_exception(e)))
    except KeyboardInterrupt as e:
        rec.update(status="harness", kind="harness", message="".join(traceback.format_exception(e)))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(f.filename.startswith(W.CODE_PREFIX) for f in tb)
        text = "".join(traceback.format_exception(e))[-3000:]
        in_sim = tb and tb[-1].filename.startswith(os.path.join(VERIF, "sim"))
        if in_sim and not inside:
            rec.update(status="harness", kind="harness", message=text)
        else:
            rec.update(status="violation", kind="unexpected_" + type(e).__name__, message=text)
    finally:
        sys.settrace(None)
    signal.setitimer(signal.ITIMER_PROF, 0)
    finish()
    W.set_current(None)
    try:
        pool.reset(w)
    except BaseException:
        pass
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
    return rec


def _where(frame):
    out = []
    while frame is not None and len(out) < 6:
        out.append(f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}")
        frame = frame.f_back
    return " < ".join(out)


_OUT_FD = None


def _emit(rec):
    data = pickle.dumps(rec)
    mv = memoryview(data)
    while len(mv):
        n = _real_write(_OUT_FD, mv[:65536])
        mv = mv[n:]


_real_write = os.write


def _die_with_parent():
    """No run outlives the process that waits for it."""
    try:
        _LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)
    except Exception:
        pass


def forked(mod, make_choices, base, opts=None):
    """Executes one run in a forked process; returns its record."""
    global _OUT_FD
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            _die_with_parent()
            _OUT_FD = wfd
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(dn, 2)
            rec = execute(mod, make_choices(), base, opts)
            _emit(rec)
        except BaseException:
            try:
                _emit({"status": "harness", "kind": "harness", "message": traceback.format_exc(), "choices": []})
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(wfd)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    chunks = []
    deadline = _real_monotonic() + WALL_LIMIT
    timed_out = False
    last_cpu, last_change = -1.0, _real_monotonic()
    while True:
        ready, _, _ = select.select([r], [], [], 5.0)
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
            continue
        cpu = _group_cpu(pid)
        now = _real_monotonic()
        if cpu != last_cpu:
            last_cpu, last_change = cpu, now
        if now - last_change > 45.0 or now > deadline:
            timed_out = True
            break
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    os.close(r)
    os.waitpid(pid, 0)
    if chunks:
        try:
            return pickle.loads(b"".join(chunks))
        except Exception:
            pass
    if timed_out:
        return {"status": "blocked", "kind": "blocked", "choices": None,
                "message": "the run blocked (no CPU used for 45 s, or over the wall limit)"}
    return {"status": "died", "kind": "process_died", "choices": None, "message": "the simulated process died"}


_real_monotonic = time.monotonic


def _group_cpu(pgid):
    """CPU ticks used so far by the processes of the group."""
    total = 0
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat") as f:
                    s = f.read()
                fields = s[s.rindex(")") + 2:].split()
                if int(fields[2]) == pgid:
                    total += int(fields[11]) + int(fields[12])
            except (OSError, ValueError):
                pass
    return total


# ---------------------------------------------------------------------------------------------------------------------
def run_batch(mod, prop, seed, indices, base, jobs, deadline, on_record, opts=None):
    """Executes runs on `jobs` dispatcher processes; calls on_record(i, rec) in the master."""
    from .choices import Choices
    pipes = {}
    for j in range(jobs):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for rr in pipes:
                    os.close(rr)
                out = os.fdopen(wfd, "wb")
                gc.freeze()
                for i in indices[j::jobs]:
                    if deadline and _real_monotonic() > deadline:
                        break
                    rec = forked(mod, lambda: Choices(seed=seed_string(prop, seed, i)), base, opts)
                    if rec["status"] in ("blocked", "died"):   # once more before believing it
                        rec = forked(mod, lambda: Choices(seed=seed_string(prop, seed, i)), base, opts)
                    if rec["status"] == "ok":
                        rec.pop("choices", None)
                        if i > 3:
                            rec["trace"] = None
                    data = pickle.dumps((i, rec))
                    out.write(len(data).to_bytes(8, "big") + data)
                    out.flush()
            except BaseException:
                traceback.print_exc()
                os._exit(5)
            os._exit(0)
        os.close(wfd)
        pipes[r] = [pid, b""]
    bad = False
    stop = False
    while pipes:
        ready, _, _ = select.select(list(pipes), [], [], 10.0)
        for r in ready:
            b = os.read(r, 1 << 20)
            if not b:
                pid, rest = pipes.pop(r)
                os.close(r)
                _, st = os.waitpid(pid, 0)
                if not stop and (rest or not os.WIFEXITED(st) or os.WEXITSTATUS(st) != 0):
                    bad = True
                continue
            pipes[r][1] += b
            buf = pipes[r][1]
            while len(buf) >= 8:
                n = int.from_bytes(buf[:8], "big")
                if len(buf) < 8 + n:
                    break
                i, rec = pickle.loads(buf[8:8 + n])
                buf = buf[8 + n:]
                if on_record(i, rec) == "stop" and not stop:
                    stop = True
                    for q in pipes.values():
                        try:
                            os.kill(q[0], signal.SIGKILL)
                        except OSError:
                            pass
            pipes[r][1] = buf
    return not bad


def shrink(mod, rec, base, opts, budget_s=75.0, max_runs=500):
    """Minimises the choice list of a violation (same kind)."""
    from .choices import Choices
    kind = rec["kind"]
    best = list(rec["choices"])
    best_rec = rec
    t0 = _real_monotonic()
    runs = [0]

    def attempt(cand):
        nonlocal best, best_rec
        if runs[0] >= max_runs or _real_monotonic() - t0 > budget_s:
            return False
        runs[0] += 1
        r = forked(mod, lambda: Choices(replay=cand), base, opts)
        if r["status"] == "violation" and r["kind"] == kind:
            used = r["choices"]
            while used and used[-1] == 0:
                used.pop()
            if (len(used), sum(used)) < (len(best), sum(best)):
                best, best_rec = used, r
                return True
        return False

    def out():
        return runs[0] >= max_runs or _real_monotonic() - t0 > budget_s
    if kind == "no_progress":
        max_runs = 3
    attempt(best)
    improved = True
    while improved and not out():
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and not out():
            i = len(best) - size
            while i >= 0 and not out():
                if i + size <= len(best):
                    if attempt(best[:i] + best[i + size:]):
                        improved = True
                    elif any(best[i:i + size]) and attempt(best[:i] + [0] * size + best[i + size:]):
                        improved = True
                i -= size
            size //= 2
        for i in range(len(best) - 1, -1, -1):
            if out():
                break
            if i >= len(best):
                continue
            v = best[i]
            for c in (0, 1, v // 2, v - 1):
                if 0 <= c < v and i < len(best) and attempt(best[:i] + [c] + best[i + 1:]):
                    improved = True
                    break
    return best, best_rec, runs[0]


def load_known():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def known_match(prop, kind, known):
    for k in known:
        if k.get("status") == "known" and k["property"] == prop and k["signature"] == kind:
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--log")
    ap.add_argument("--only", type=int)
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--no-post", action="store_true")
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            hs = json.load(f).get("hashseed")
        if hs is not None and hs != os.environ.get("PYTHONHASHSEED"):
            os.environ["PYTHONHASHSEED"] = hs
            os.execv(sys.executable, [sys.executable, "-m", "sim.driver"] + sys.argv[1:])
    sys.path.insert(0, VERIF)
    bootstrap(a.id)
    mod = importlib.import_module("props." + a.id)
    base = tempfile.mkdtemp(prefix="vsim-")
    try:
        if a.replay:
            return replay(a, mod, base)
        return check(a, mod, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def replay(a, mod, base):
    from .choices import Choices
    with open(a.replay) as f:
        d = json.load(f)
    if d.get("choices") is None and d.get("extra") is not None:
        bad = mod.replay_extra(d["extra"], a, base)
        for kind, msg in bad:
            print(f"{kind}: {msg}")
        if bad:
            print(f"VIOLATION property={a.id} replay={a.replay}")
        return 1 if bad else 0
    rec = forked(mod, lambda: Choices(replay=d["choices"]) if d.get("choices") is not None else Choices(seed=d["seed_string"]), base,
                 d.get("opts"))
    for line in rec.get("trace") or []:
        print("  " + line)
    print(f"status={rec['status']} kind={rec.get('kind')}")
    print(rec.get("message") or "")
    if a.log:
        with open(a.log, "w") as f:
            json.dump({k: rec.get(k) for k in ("status", "kind", "message", "trace", "hash")}, f)
    if rec["status"] in ("violation", "blocked", "died"):
        print(f"VIOLATION property={a.id} replay={a.replay}")
        return 1
    return 0 if rec["status"] == "ok" else 2


def check(a, mod, base):
    t0 = _real_monotonic()
    n = a.runs or (mod.QUICK if a.tier == "quick" else getattr(mod, "THOROUGH", mod.QUICK * 20))
    indices = [a.only] if a.only is not None else list(range(n))
    known = load_known()
    agg = {"ok": 0, "faults": {}, "probes": {}, "now": 0.0, "hashes": set(), "nontrivial": 0}
    viol = {}
    known_hits = {}
    harness = []
    samples = []
    log = {}

    def on_record(i, rec):
        for k in ("faults", "probes"):
            for name, c in (rec.get(k) or {}).items():
                agg[k][name] = agg[k].get(name, 0) + c
        agg["now"] += rec.get("now") or 0.0
        log[i] = (rec["status"], rec.get("kind"), rec.get("hash"), rec.get("value"))
        if rec.get("nontrivial"):
            agg["nontrivial"] += 1
            agg["hashes"].add(rec.get("hash"))
        for kf in rec.get("known") or []:
            known_hits.setdefault(kf, i)
        if rec["status"] == "ok":
            agg["ok"] += 1
            if rec.get("trace") is not None and len(samples) < 4 and rec.get("nontrivial"):
                samples.append({"run": i, "case": rec.get("sample"), "events": rec["trace"][:40]})
        elif rec["status"] in ("violation", "blocked", "died"):
            kind = rec["kind"]
            k = known_match(a.id, kind, known)
            if k is not None:
                known_hits.setdefault(kind, i)
                agg["ok"] += 1
            else:
                if kind not in viol or i < viol[kind][0]:
                    viol[kind] = (i, rec)
                if len(viol) >= 1 and not a.all and sum(1 for v in log.values() if v[0] == "violation") >= 12:
                    return "stop"
        else:
            harness.append((i, rec))
            if len(harness) > 5:
                return "stop"
        return None

    cap = getattr(mod, "WALL_CAP", 600 if a.tier == "quick" else 3000)
    deadline = t0 + cap
    complete = run_batch(mod, a.id, a.seed, indices, base, max(1, min(a.jobs, len(indices))), deadline, on_record,
                         getattr(mod, "OPTS", None))
    post = getattr(mod, "post", None)
    if post is not None and not a.no_post and a.only is None and not viol and not harness:
        extra = post(a, base, n)
        for kind, msg in extra.get("violations", []):
            viol[kind] = (-1, {"kind": kind, "message": msg, "choices": None, "status": "violation", "trace": [],
                               "replay": extra.get("replay")})
        for name, c in extra.get("probes", {}).items():
            agg["probes"][name] = agg["probes"].get(name, 0) + c
        for name, c in extra.get("faults", {}).items():
            agg["faults"][name] = agg["faults"].get(name, 0) + c
    wall = _real_monotonic() - t0
    if a.log:
        with open(a.log, "w") as f:
            json.dump({str(k): log[k] for k in sorted(log)}, f, indent=0)

    for kind, i in sorted(known_hits.items()):
        k = known_match(a.id, kind, known)
        print(f"KNOWN-FINDING: property={a.id} {k['what'] if k else kind} (run {i})")

    code = 0
    reported = []
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        order = sorted(viol.items(), key=lambda kv: (kv[1][1].get("status") == "blocked", kv[1][0]))
        for num, (kind, (i, rec)) in enumerate(order[:3]):
            if num and _real_monotonic() - t0 > 240:
                break
            path = os.path.join(VERIF, "replays", f"{a.id}-{a.seed}-{i}-{''.join(c if c.isalnum() else '_' for c in kind)}.json")
            body = {"property": a.id, "verif_seed": a.seed, "run": i, "kind": kind, "hashseed": os.environ.get("PYTHONHASHSEED"),
                    "opts": getattr(mod, "OPTS", None)}
            if rec.get("choices"):
                mini, mrec, tries = shrink(mod, rec, base, getattr(mod, "OPTS", None), budget_s=60.0 if num == 0 else 20.0)
                body.update(choices=mini, original_choices=rec["choices"], shrink_runs=tries, message=mrec["message"],
                            trace=mrec["trace"], case=mrec.get("sample"))
            else:
                body.update(message=rec.get("message"), choices=None, seed_string=seed_string(a.id, a.seed, i), extra=rec.get("replay"))
            with open(path, "w") as f:
                json.dump(body, f, indent=1, default=str)
            if body.get("choices") is not None:
                p = subprocess.run([sys.executable, "-m", "sim.driver", a.id, "--replay", path], cwd=VERIF,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if p.returncode != 1:
                    body["choices"] = rec["choices"]
                    body["note"] = "the minimised stream was not confirmed in a fresh process; original kept"
                    with open(path, "w") as f:
                        json.dump(body, f, indent=1, default=str)
            print(f"--- {a.id} run {i}: {kind}")
            print("\n".join("    " + x for x in str(body.get("message")).splitlines()[-25:]))
            reported.append(path)
        for path in reported:
            print(f"VIOLATION property={a.id} replay={path}")
        code = 1
    elif harness:
        for i, rec in harness[:3]:
            print(f"HARNESS-ERROR run {i}: {rec.get('message')}")
        code = 2
    elif not complete or (len(log) < len(indices) * 0.5):
        print(f"INCOMPLETE: {len(log)} of {len(indices)} runs finished")
        code = 2

    if not a.no_evidence and a.only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": a.id, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": "exploration",
              "coverage": {
                  "evaluations": len(log), "distinct_nontrivial": len(agg["hashes"]), "rule": mod.RULE,
                  "samples": samples or [{"run": None, "case": "no non-trivial run among the first four"}],
                  "nontrivial_runs": agg["nontrivial"],
                  "runs_per_hour": round(len(log) / wall * 3600) if wall > 0 else 0,
                  "seeds_per_hour": round(len(log) / wall * 3600) if wall > 0 else 0,
                  "simulated_seconds": round(agg["now"], 1), "faults_injected": dict(sorted(agg["faults"].items())),
                  "probes": dict(sorted(agg["probes"].items())),
                  "distinct_measure": "distinct event logs (schedule decisions, faults, task assignments, operations) among "
                                      "non-trivial runs",
                  "real_components": getattr(mod, "REAL", REAL), "stub_components": getattr(mod, "STUB", STUB),
                  "known_findings_hit": sorted(known_hits), "runs_planned": len(indices)},
              "assumptions": ASSUME + getattr(mod, "ASSUME", []),
              "wall_s": round(wall, 2), "violations": len(viol)}
        tmp = os.path.join(VERIF, "evidence", f".{a.id}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{a.id}.json"))
    print(f"{a.id} {a.tier}: {len(log)} runs, {agg['nontrivial']} non-trivial, {len(agg['hashes'])} distinct, "
          f"{len(viol)} violations, {wall:.1f}s; faults {dict(sorted(agg['faults'].items()))}; probes {dict(sorted(agg['probes'].items()))}")
    return code


REAL = ["pylattica (all of /repo/src)", "numpy", "rustworkx", "monty", "Pillow", "pickle", "worker process memory (os.fork)"]
STUB = ["parent side of multiprocessing pools (scheduling, hand-over)", "thread scheduler", "clock", "random outcome source",
        "raw file layer (fault points)", "neighbour order of rustworkx graphs"]
ASSUME = ["seeded sampling: a clean batch is evidence, not proof"]

if __name__ == "__main__":
    sys.exit(main())

import os
import sys
import tempfile
import types
from _thread import get_ident

from PIL import Image, ImageDraw

from pylattica.core import SimulationResult, SimulationState
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder
from pylattica.visualization import DiscreteCellArtist, SquareGridArtist2D
from pylattica.visualization.result_artist import ResultArtist
from pylattica.visualization.structure_artist import StructureArtist

from sim import clock as K
from sim import fs as F
from sim import pool as P
from sim import threads as T
from . import workloads as L

ID = "C12"
QUICK = 1600
THOROUGH = 25000
RULE = ("results of 1 to 13 steps drawn as animations by a square grid artist or an artist that draws a code of the state, with any "
        "sampling interval and any rendering schedule; alone, by several threads in one directory, or hit by an artist error, a storage "
        "fault, a worker start failure or an interrupt; the frames are decoded and the directory is compared byte for byte. "
        "Non-trivial: a fault, a thread switch, or more than one rendering worker.")
ERRORS = (ValueError, KeyError, TypeError, OSError, IndexError, RuntimeError, AttributeError, ZeroDivisionError,
          FileNotFoundError, MemoryError)
BITS = 24
BLOCK = 4


class CodeArtist(StructureArtist):
    """Draws a 24 bit code of the state as black and white blocks."""

    def __init__(self):
        super().__init__(None, None)
        self.bad = None
        self.error = ValueError

    def _draw_image(self, state, **kwargs):
        code = L.digest(*L.plain(state)) & (1 << BITS) - 1
        if self.bad is not None and code == self.bad:
            raise self.error("the artist fails at this step")
        img = Image.new("RGB", (BITS // 3 * BLOCK, 4 * BLOCK), "black")
        d = ImageDraw.Draw(img)
        # the number in the label below the code: Pillow merges equal frames of an animation
        number = int("".join(c for c in str(kwargs.get("label")) if c.isdigit()) or 0)
        for b in range(BITS // 3):
            if number >> b & 1:
                d.rectangle((b * BLOCK, 3 * BLOCK, (b + 1) * BLOCK - 1, 4 * BLOCK - 1), fill="white")
        for b in range(BITS):
            if code >> b & 1:
                x, y = b % (BITS // 3) * BLOCK, b // (BITS // 3) * BLOCK
                d.rectangle((x, y, x + BLOCK - 1, y + BLOCK - 1), fill="white")
        return img


def decode_code(img, _):
    v = 0
    for b in range(BITS):
        x, y = b % (BITS // 3) * BLOCK + 1, b // (BITS // 3) * BLOCK + 1
        if sum(img.getpixel((x, y))[:3]) > 380:
            v |= 1 << b
    return v


COLOURS = {"p": (255, 0, 0), "q": (0, 255, 0), "r": (0, 0, 255)}


class GridArtist(SquareGridArtist2D):
    bad = None
    error = ValueError

    def _draw_image(self, state, **kwargs):
        if self.bad is not None and want_grid(state, self.size) == self.bad:
            raise self.error("the artist fails at this step")
        return super()._draw_image(state, **kwargs)


def want_grid(state, size):
    return tuple(state.get_site_state(s)[DISCRETE_OCCUPANCY] for s in sorted(state.site_ids()))


class Notebook:
    """Stands in for the notebook front end: what each thread displays and clears, and when."""

    def __init__(self):
        self.events = {}
        display = types.ModuleType("IPython.display")
        display.display = lambda *objs, **_: [self.add(o) for o in objs]
        display.clear_output = lambda wait=False: self.add(None)
        top = types.ModuleType("IPython")
        top.display, top.get_ipython, top.version_info = display, lambda: None, (8, 0)
        sys.modules["IPython"], sys.modules["IPython.display"] = top, display

    def add(self, obj):
        T.W.yield_point("display")
        self.events.setdefault(get_ident(), []).append((obj, K.clock.mono))


class Job:
    """One animation to save."""

    def __init__(self, w, tag, name):
        ch = w.ch
        self.w = w
        self.name = name
        n = ch.pick((3, 1, 2, 5, 4, 8, 12, 11))
        long = ch.flip(35)
        self.grid = ch.flip(250) and not long
        if long:
            n = ch.between(30, 170)
            w.pool_cfg.cpus = min(w.pool_cfg.cpus, ch.between(1, 4))
        if self.grid:
            n = min(n, 5)
            self.size = size = ch.pick((3, 4))
            struct = SimpleSquare2DStructureBuilder().build(size)
            st = SimulationState()
            for sid in struct.site_ids:
                st.set_site_state(sid, {DISCRETE_OCCUPANCY: ch.pick("pqr")})
            self.res = SimulationResult(st)
            self.codes = [want_grid(st, size)]
            for _ in range(n - 1):
                ups = {}
                if not ch.flip(100):
                    for _ in range(ch.between(1, 4)):
                        ups[ch.pick(struct.site_ids)] = {DISCRETE_OCCUPANCY: ch.pick("pqr")}
                self.res.add_step(ups)
                cur = list(self.codes[-1])
                for s, d in ups.items():
                    cur[sorted(struct.site_ids).index(s)] = d[DISCRETE_OCCUPANCY]
                self.codes.append(tuple(cur))
            self.cell = ch.pick((20, 24))
            self.artist = GridArtist(struct, DiscreteCellArtist(dict(COLOURS)))
            self.artist.size = size
            self.struct = struct
            self.kwargs = {"cell_size": self.cell}
        else:
            st = L.gen_state(ch, ch.between(1, 4), nested=False)
            st.set_general_state({"tag": tag})
            self.res = SimulationResult(st)
            model = [L.plain(st)]
            still = ch.pick((0, 0, 0, 300, 800))       # steps that change nothing are frames like any other
            for k in range(n - 1):
                _, sites, _ = L.random_update(ch, list(st.site_ids()))
                gen = {"k": k}
                if ch.flip(still):
                    sites, gen = {}, {}
                self.res.add_step({"SITES": sites, "GENERAL": gen})
                model.append(L.apply_model(model[-1], sites, gen))
            self.codes = [L.digest(*m) & (1 << BITS) - 1 for m in model]
            self.artist = CodeArtist()
            self.kwargs = {}
        freq = ch.pick((None, 1, 2, 3, n))
        if freq is not None:
            self.kwargs["draw_freq"] = freq
        if ch.flip(200):
            self.kwargs["wait"] = ch.pick((0.1, 1, 0.5))
        if ch.flip(200):
            self.res.load_steps(ch.between(1, 3))
        if ch.flip(250):        # as after a run that was then continued
            self.res.set_output(self.res.get_step(ch.draw(n)))
        self.idx = list(range(0, n, freq or 1))
        self.ra = ResultArtist(self.artist, self.res)
        self.desc = f"{'grid' if self.grid else 'code'} animation {name} of {n} steps {self.kwargs}"

    def save(self):
        self.ra.to_gif(self.name, **self.kwargs)

    def notebook(self, book, step=None, wait=0):
        """Plays the whole animation, or shows one step of it."""
        size = {"cell_size": self.cell} if self.grid else {}
        mine = book.events[get_ident()] = []
        if step is None:
            self.ra.jupyter_play(wait=wait, **size)
            want = self.codes
        else:
            self.ra.jupyter_show_step(step, **size)
            want = [self.codes[step]]
        what = f"{self.desc} " + (f"played with {wait} s between frames" if step is None else f"asked to show step {step}")
        w = self.w
        got, times, shown = [], [], 0
        for img, t in mine:
            if img is None:
                w.check(not shown or t - times[-1] > wait - 1e-6, "too_fast", f"{what}: frame {len(got) - 1} is gone at once")
                shown = 0
                continue
            shown += 1
            w.check(shown == 1, "not_cleared", f"{what}: frame {len(got)} is displayed next to the one before")
            got.append(self.decode(img.convert("RGB")))
            times.append(t)
        w.check(got == want, "wrong_frame", lambda: f"{what} shows the steps {[self.codes.index(g) if g in self.codes else '?' for g in got]}")
        for a, b in zip(times, times[1:]):
            w.check(b - a > wait - 1e-6, "too_fast", f"{what}: the next frame comes after {b - a:.3f} s")

    def decode(self, img):
        if not self.grid:
            return decode_code(img, None)
        out = []
        for sid in sorted(self.struct.site_ids):
            x, y = self.struct.site_location(sid)
            px = img.getpixel((int(x) * self.cell + self.cell - 3, int(self.size - 1 - y) * self.cell + self.cell - 2))[:3]
            best = min(COLOURS, key=lambda p: sum(abs(a - b) for a, b in zip(COLOURS[p], px)))
            out.append(best if sum(abs(a - b) for a, b in zip(COLOURS[best], px)) < 90 else "?")
        return tuple(out)

    def check(self, what):
        w = self.w
        w.check(os.path.isfile(self.name), "no_file", f"{what}: {self.name} was not written")
        try:
            with Image.open(self.name) as im:
                frames = []
                for k in range(getattr(im, "n_frames", 1)):
                    im.seek(k)
                    frames.append(self.decode(im.convert("RGB")))
        except Exception as e:
            w.fail("unreadable", f"{what}: {self.name} is no animation: {type(e).__name__}: {e}")
        want = [self.codes[i] for i in self.idx]
        w.check(len(frames) == len(want), "frame_count", f"{what}: {self.desc} has {len(frames)} frames, {len(want)} sampled steps")
        for j, (g, x) in enumerate(zip(frames, want)):
            w.check(g == x, "wrong_frame", lambda: f"{what}: frame {j} of {self.desc} does not show step {self.idx[j]} ("
                    + (f"it shows step {self.codes.index(g)}" if g in self.codes else "it shows no step of this result") + ")")


def look(ch, job, book):
    step, wait = ch.pick(range(len(job.codes))) if ch.flip(300) else None, ch.pick((0, 1, 0.25))
    return lambda: job.notebook(book, step, wait)


def compare(w, before, after, allowed, what):
    for p in sorted(set(before) | set(after)):
        if p in allowed:
            continue
        if p not in after:
            w.fail("file_removed", f"{what}: the file {p} was removed")
        if p not in before:
            w.fail("file_left", f"{what}: the file {p} was left behind")
        if before[p] != after[p]:
            w.fail("file_changed", f"{what}: the file {p} was changed")


def run(w):
    ch = w.ch
    c = P.choose_config(w)
    c.max_active = min(c.max_active, 4)
    c.cpus = min(c.cpus, 8)
    root = os.path.realpath(".")
    os.mkdir("systmp")
    tempfile.tempdir = os.path.join(root, "systmp")
    os.mkdir("work")
    os.chdir("work")
    tag = 0
    for n in ("notes.txt", "tmp_pylat_step_0.png", "tmp_pylat_step_1.png", "step_0.png", "0.png", "frame_0.png", "tmp_pylat_step_3.png"):
        if ch.flip(250):
            F.real_write(n, f"content of {n}".encode())
    if ch.flip(200):
        Image.new("RGB", (8, 8), "red").save("tmp_pylat_step_0.png")
    names = ["a.gif", "b.gif", "c.gif"]
    if ch.flip(200):
        F.real_write("a.gif", b"an older file")
    samples = []
    book = Notebook()
    for _ in range(ch.pick((1, 2))):
        before = F.tree(root)
        k = ch.weighted(8, 6, 4, 4, 6, 2, 3)
        tag += 1
        if k == 1:
            jobs = [Job(w, tag * 10 + i, names[i]) for i in range(ch.between(2, 3))]
            if ch.flip(300) and not jobs[0].grid and not jobs[1].grid:      # one artist object for both
                jobs[1].artist = jobs[0].artist
                jobs[1].ra = ResultArtist(jobs[0].artist, jobs[1].res)
        else:
            jobs = [Job(w, tag * 10, "a.gif")]
        job = jobs[0]
        what = ("save", "concurrent saves", "artist error", "storage fault", "interrupt", "worker start failure", "notebook")[k]
        samples.append(f"{what}: " + " | ".join(j.desc for j in jobs))
        w.ev(samples[-1])
        allowed = {"work/" + j.name for j in jobs}
        if k == 0:
            job.save()
            job.check(what)
        elif k == 1:
            acts = [j.save for j in jobs]
            played = ch.draw(len(jobs)) + 1 if ch.flip(150) else len(jobs)
            for i in range(played, len(jobs)):
                acts[i] = look(ch, jobs[i], book)
                allowed.discard("work/" + jobs[i].name)
            outs = T.Scheduler(w).run(acts)
            for j, (_, e) in zip(jobs, outs):
                if e is not None:
                    raise e
            for j in jobs[:played]:
                j.check(what)
        elif k == 6:
            allowed.clear()
            for _ in range(ch.between(1, 3)):
                look(ch, job, book)()
        else:
            exc = None
            try:
                if k == 2:
                    job.artist.bad = job.codes[ch.pick(job.idx)]
                    job.artist.error = ch.pick(ERRORS)
                    w.fault("artist_error")
                    job.save()
                elif k == 3:
                    def count():
                        w.fs.arm(None, None)
                        job.save()
                        return w.fs.disarm()
                    saved = F.tree(root)
                    out = F.in_child(count)
                    ops = out[1] if out[0] == "done" else 20
                    restore(root, saved)
                    w.fs.arm(ch.pick(("enospc", "eio", "openfail")), ch.draw(max(1, ops)), part=ch.pick((0, 500, 1000)),
                             sticky=ch.flip(300))
                    try:
                        job.save()
                    finally:
                        w.fs.disarm()
                elif k == 4:
                    saved = F.tree(root)
                    it = T.interrupter_for(w, job.save, 300)
                    restore(root, saved)
                    it.run(job.save)
                else:
                    c.start_fail_at = w.probes.get("forks", 0) + ch.draw(max(1, min(c.max_active, c.cpus)))
                    job.save()
            except (Exception, KeyboardInterrupt) as e:
                exc = e
            w.ev(f"outcome {type(exc).__name__ if exc else 'returned'}")
            c.start_fail_at = None
            job.artist.bad = None
            if exc is None and k != 2:
                job.check(what)
            elif exc is None:
                w.fail("error_lost", f"{what}: {job.desc}: the artist failed at a sampled step, but saving returned normally")
            P.reset(w)
        compare(w, before, F.tree(root), allowed, samples[-1])
        if 1 < k < 6:
            before = F.tree(root)
            job.save()
            job.check("save after " + what)
            compare(w, before, F.tree(root), allowed, "save after " + what)
        if k == 0 and len(job.idx) > 1 and c.cpus > 1:
            w.nontrivial = True
    w.sample = "; ".join(samples)
    os.chdir(root)


def restore(root, saved):
    cur = F.tree(root)
    for p in cur:
        if p not in saved and not p.endswith("/"):
            F._os["unlink"](os.path.join(root, p))
    for p, d in saved.items():
        if not p.endswith("/") and cur.get(p) != d:
            F.real_write(os.path.join(root, p), d)

"""Simulated storage: fault points under open()/os.* for files inside the run's scratch directory."""
import builtins
import errno
import io
import os

from . import world as W

CRASH_STATUS = 211

_open = io.open
_os = {n: getattr(os, n) for n in ("open", "write", "rename", "replace", "remove", "unlink", "link", "symlink", "mkdir",
                                   "rmdir", "fsync", "fdatasync", "truncate", "ftruncate", "close")}


class FS:
    """Fault plan of a run.  Unarmed: everything passes through (operations are only yield points)."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.bufsize = None
        self.armed = False
        self.ops = 0
        self.fault_at = None
        self.kind = None
        self.part = 0
        self.sticky = False
        self.fired = None
        self.only = None
        self.dirty = {}          # path -> bytes of it known to be durable
        self.power_loss = None   # None or permille of unsynced data kept
        self.fds = {}
        self.short = 0

    # -- configuration -------------------------------------------------
    def arm(self, kind, at, part=0, sticky=False, power_loss=None, only=None, short=0):
        self.armed = True
        self.ops = 0
        self.kind = kind
        self.fault_at = at
        self.part = part
        self.sticky = sticky
        self.fired = None
        self.power_loss = power_loss
        self.only = only
        self.short = short
        self.dirty = {}

    def disarm(self):
        self.armed = False
        n = self.ops
        return n

    # -- helpers -------------------------------------------------------
    def inside(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def _crash(self):
        if self.power_loss is not None:
            for path, durable in self.dirty.items():
                try:
                    size = os.stat(path).st_size
                    if size > durable:
                        keep = durable + (size - durable) * self.power_loss // 1000
                        fd = _os["open"](path, os.O_WRONLY)
                        _os["ftruncate"](fd, keep)
                        _os["close"](fd)
                except OSError:
                    pass
        os._exit(CRASH_STATUS)

    def _due(self, op):
        """Counts an operation; returns the fault to apply to it or None."""
        if not self.armed:
            return None
        if self.only is not None and op not in self.only:
            return None
        k = self.ops
        self.ops += 1
        if self.fired is not None and self.sticky and self._applies(op):
            return self.kind
        if self.fired is None and self.fault_at is not None and k >= self.fault_at and self._applies(op):
            self.fired = f"{self.kind}@{op}#{k}"
            W.current.fault("fs_" + self.kind)
            return self.kind
        return None

    def _applies(self, op):
        if self.kind == "crash":
            return True
        if self.kind in ("enospc", "eio"):
            return op in ("write", "fsync", "truncate", "close", "create", "rename")
        if self.kind == "openfail":
            return op in ("open", "create")
        if self.kind == "readerr":
            return op == "read"
        return False

    def _raise(self, kind, path):
        code = {"enospc": errno.ENOSPC, "eio": errno.EIO, "readerr": errno.EIO, "openfail": errno.EMFILE}[kind]
        raise OSError(code, os.strerror(code), path if isinstance(path, str) else None)

    def simple(self, op, path, act):
        W.yield_point("fs:" + op)
        f = self._due(op)
        if f == "crash":
            if self.part >= 500:
                act()
            self._crash()
        if f is not None:
            self._raise(f, path)
        return act()


class SimRaw(io.FileIO):
    def __init__(self, file, mode, closefd=True, opener=None):
        fs = W.current.fs
        self._fs = fs
        creating = any(c in mode for c in "wxa")
        self._path = os.path.realpath(file) if not isinstance(file, int) else fs.fds.get(file, "?")
        fs_init = super().__init__
        if isinstance(file, int):
            fs_init(file, mode, closefd)
        else:
            fs.simple("create" if creating else "open", str(file), lambda: fs_init(file, mode, closefd, opener))
        if creating or "+" in mode:
            if "w" in mode or "x" in mode:
                fs.dirty[self._path] = 0
            else:
                try:
                    fs.dirty.setdefault(self._path, os.stat(self._path).st_size)
                except OSError:
                    pass

    def write(self, b):
        fs = self._fs
        W.yield_point("fs:write")
        mv = memoryview(b).cast("B")
        f = fs._due("write")
        if f is not None:
            n = len(mv) * fs.part // 1000
            if n:
                super().write(mv[:n])
            if f == "crash":
                fs._crash()
            fs._raise(f, self._path)
        if fs.armed and fs.short and len(mv) > 1:
            fs.short -= 1
            W.current.fault("fs_short_write")
            return super().write(mv[: max(1, len(mv) // 2)])
        return super().write(mv)

    def _read_fault(self):
        f = self._fs._due("read")
        if f == "crash":
            self._fs._crash()
        if f is not None:
            self._fs._raise(f, self._path)

    def readinto(self, b):
        self._read_fault()
        return super().readinto(b)

    def readall(self):
        self._read_fault()
        return super().readall()

    def read(self, size=-1):
        self._read_fault()
        return super().read(size)

    def close(self):
        if not self.closed and getattr(self, "_fs", None) is not None and self.writable():
            f = None
            try:
                W.yield_point("fs:close")
                f = self._fs._due("close")
            finally:
                if f == "crash":
                    self._fs._crash()
                super().close()
            if f is not None:
                self._fs._raise(f, self._path)
        else:
            super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = W.current
    if w is None or w.fs is None or not w.fs.inside(file):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes) or sum(c in modes for c in "xrwa") != 1:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in modes
    updating = "+" in modes
    rawmode = "".join(c for c in mode if c in "xrwa+")
    raw = SimRaw(file, rawmode, closefd, opener)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = w.fs.bufsize or (buffering if buffering > 1 else 8192)
        if updating:
            buf = io.BufferedRandom(raw, size)
        elif "r" in modes:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _wrap_path(name, op, npaths=1):
    real = _os[name]

    def f(*a, **k):
        w = W.current
        if w is None or w.fs is None or not a or not any(w.fs.inside(p) for p in a[:npaths]):
            return real(*a, **k)
        r = w.fs.simple(op, str(a[0]), lambda: real(*a, **k))
        if name in ("rename", "replace"):
            src, dst = os.path.realpath(a[0]), os.path.realpath(a[1])
            if src in w.fs.dirty:
                w.fs.dirty[dst] = w.fs.dirty.pop(src)
        return r
    f.__name__ = name
    return f


def _sim_os_open(path, flags, mode=0o777, **k):
    w = W.current
    if w is None or w.fs is None or not w.fs.inside(path):
        return _os["open"](path, flags, mode, **k)
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
    fd = w.fs.simple("create" if writing else "open", str(path), lambda: _os["open"](path, flags, mode, **k))
    w.fs.fds[fd] = os.path.realpath(path)
    if flags & (os.O_CREAT | os.O_TRUNC):
        w.fs.dirty.setdefault(os.path.realpath(path), 0)
    return fd


def _sim_os_write(fd, data):
    w = W.current
    if w is None or w.fs is None or fd not in w.fs.fds:
        return _os["write"](fd, data)
    fs = w.fs
    W.yield_point("fs:write")
    f = fs._due("write")
    if f is not None:
        n = len(data) * fs.part // 1000
        if n:
            _os["write"](fd, data[:n])
        if f == "crash":
            fs._crash()
        fs._raise(f, fs.fds[fd])
    if fs.armed and fs.short and len(data) > 1:
        fs.short -= 1
        W.current.fault("fs_short_write")
        return _os["write"](fd, data[: len(data) // 2])
    return _os["write"](fd, data)


def _sim_os_close(fd):
    w = W.current
    if w is not None and w.fs is not None:
        w.fs.fds.pop(fd, None)
    return _os["close"](fd)


def _sim_fsync(fd):
    w = W.current
    if w is None or w.fs is None:
        return _os["fsync"](fd)
    fd = fd if isinstance(fd, int) else fd.fileno()
    try:
        path = os.readlink(f"/proc/self/fd/{fd}")
    except OSError:
        path = "?"
    if not w.fs.inside(path):
        return _os["fsync"](fd)
    w.fs.simple("fsync", path, lambda: None)
    try:
        w.fs.dirty[path] = os.stat(path).st_size
    except OSError:
        pass


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.open = _sim_os_open
    os.write = _sim_os_write
    os.close = _sim_os_close
    os.fsync = _sim_fsync
    os.fdatasync = _sim_fsync
    for name, op, n in (("rename", "rename", 2), ("replace", "rename", 2), ("link", "rename", 2), ("symlink", "rename", 2),
                        ("remove", "remove", 1), ("unlink", "remove", 1), ("mkdir", "mkdir", 1), ("rmdir", "rmdir", 1),
                        ("truncate", "truncate", 1)):
        setattr(os, name, _wrap_path(name, op, n))


def tree(root):
    """{relative path: bytes} of everything below root."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = b""
        for x in sorted(files):
            p = os.path.join(d, x)
            with _open(p, "rb") as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


def real_read(path):
    with _open(path, "rb") as f:
        return f.read()


def real_write(path, data):
    with _open(path, "wb") as f:
        f.write(data)


def in_child(fn):
    """Runs fn in a forked copy of this process (its memory, the shared disk).

    Returns ("done", value) / ("raised", repr) / ("crashed", None)."""
    import pickle
    from .choices import OutOfChoices
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            import signal
            signal.signal(signal.SIGPROF, lambda *_: os._exit(77))
            signal.setitimer(signal.ITIMER_PROF, 20.0)
            _os["close"](r)
            try:
                out = ("done", fn())
            except W.Violation as e:
                out = ("violation", (e.kind, e.message))
            except OutOfChoices:
                out = ("violation", ("no_progress", "a forked step made scheduling decisions without coming to an end"))
            except BaseException as e:  # noqa
                out = ("raised", f"{type(e).__name__}: {e}")
            data = pickle.dumps((out, dict(W.current.faults), W.current.fs.fired if W.current.fs else None,
                                 W.current.fs.ops if W.current.fs else 0))
            with _open(wfd, "wb") as f:
                f.write(data)
            status = 0
        finally:
            os._exit(status)
    _os["close"](wfd)
    with _open(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == CRASH_STATUS:
        W.current.fault("process_crash")
        return "crashed", None
    if not data:
        raise W.Violation("no_progress", f"a forked step ran without end or ended abnormally (status {st})")
    out, faults, fired, ops = pickle.loads(data)
    for k, v in faults.items():
        d = v - W.current.faults.get(k, 0)
        if d > 0:
            W.current.faults[k] += d
            W.current.nontrivial = True
    if W.current.fs is not None:
        W.current.fs.last_fired, W.current.fs.last_ops = fired, ops
    if out[0] == "violation":
        raise W.Violation(*out[1])
    return out

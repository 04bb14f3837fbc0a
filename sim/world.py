"""State of the simulated world of the current run (one run = one process)."""
import os
from collections import Counter

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
CODE_PREFIX = os.path.join(REPO_SRC, "pylattica") + os.sep


class Violation(BaseException):
    """The property is broken.  BaseException so that no handler of the code under test swallows it."""

    def __init__(self, kind, message):
        super().__init__(kind, message)
        self.kind = kind
        self.message = message


class HarnessError(BaseException):
    pass


class World:
    def __init__(self, choices):
        self.ch = choices
        self.trace = []          # readable event log
        self.faults = Counter()  # faults that really fired
        self.probes = Counter()
        self.now = 0.0           # simulated seconds
        self.nontrivial = False
        self.sample = None
        self.scratch = None
        self.threads = None      # active scheduler
        self.pools = []          # every simulated pool of this run
        self.wait_hook = None    # called at pool waits (interrupt injection)
        self.pool_cfg = None
        self.fs = None
        self.in_worker = False   # inside a forked pool worker
        self.pid = os.getpid()
        self.known = []

    def ev(self, text):
        if len(self.trace) < 4000:
            self.trace.append(text)

    def fault(self, kind):
        self.faults[kind] += 1
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] += n

    def fail(self, kind, message):
        raise Violation(kind, message)

    def check(self, cond, kind, message):
        if not cond:
            raise Violation(kind, message() if callable(message) else message)


current = None


def set_current(w):
    global current
    current = w


def yield_point(what):
    """A place where another simulated thread may be scheduled."""
    w = current
    if w is not None and w.threads is not None and not w.in_worker:
        w.threads.external_point(what)

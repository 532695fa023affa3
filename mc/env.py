"""The controlled environment: imports hyperpack from the repository under test with the
clock behind a seam, and captures the library's log records."""
import logging
import os
import sys
import time

sys.dont_write_bytecode = True
REPO = os.environ.get("HYPERPACK_REPO", "/repo")


class Clock:
    """Virtual clock.  Reads made from hyperpack's modules get `now` while `virtual`."""

    def __init__(self):
        self.virtual = False
        self.now = 1_000_000.0
        self.reads = 0
        self.on_read = None

    def read(self, real):
        if self.virtual:
            name = sys._getframe(2).f_globals.get("__name__", "")
            if name.startswith("hyperpack"):
                self.reads += 1
                if self.on_read is not None:
                    self.on_read(self)
                return self.now
        return real()

    def start(self, now=1_000_000.0, on_read=None):
        self.virtual, self.now, self.reads, self.on_read = True, now, 0, on_read

    def stop(self):
        self.virtual, self.on_read = False, None


CLOCK = Clock()
if not hasattr(time, "_hpmc_real"):
    time._hpmc_real = (time.time, time.monotonic, time.perf_counter)
    _t, _m, _p = time._hpmc_real
    time.time = lambda: CLOCK.read(_t)
    time.monotonic = lambda: CLOCK.read(_m)
    time.perf_counter = lambda: CLOCK.read(_p)


def load():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import hyperpack
    got = os.path.realpath(os.path.dirname(hyperpack.__file__))
    want = os.path.realpath(os.path.join(REPO, "hyperpack"))
    if got != want:
        raise RuntimeError("hyperpack imported from %s, not %s" % (got, want))
    return hyperpack


class LogCapture(logging.Handler):
    """Collects (level, message) of every record of every library logger."""

    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))

    def clear(self):
        self.records.clear()

    def errors(self):
        return [m for lv, m in self.records if lv >= logging.ERROR]

    def warnings(self):
        return [m for lv, m in self.records if lv == logging.WARNING]


CAPTURE = LogCapture()


def hyperpack(quiet=True):
    hp = load()
    from hyperpack import loggers
    seen = set()
    for lg in vars(loggers).values():
        if isinstance(lg, logging.Logger) and id(lg) not in seen:
            seen.add(id(lg))
            lg.propagate = False
            lg.handlers[:] = [CAPTURE] if not quiet else [logging.NullHandler()]
            if quiet:
                lg.setLevel(logging.CRITICAL + 1)
            else:
                lg.setLevel(logging.INFO)
    return hp

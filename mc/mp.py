"""Multi process hypersearch under the controlled scheduler."""
import itertools
import logging

import simmp

simmp.install()

import env            # noqa: E402
import landscape as ls  # noqa: E402
import trace          # noqa: E402
from core import Violation  # noqa: E402

hp = env.hyperpack(quiet=False)
for _lg in (hp.loggers.hyperLogger, hp.loggers.logger):
    _lg.setLevel(logging.WARNING)

PERMS = [("A", "B"), ("B", "A"), ("A",), ("B",), ("A", "C"), ("B", "D"), ("C", "A"), ("D", "B"),
         ("E", "A"), ("F", "B"), ("E",), ("F",), ("A_", "B"), ("B_", "A"), ("A_",), ("B_",)]
CLASSES = ("A", "B", "C", "D", "A_", "B_", "E", "F")
INIT = ("D", "C")      # the instance's own strategy, never in the pool


class Tagged(logging.Handler):
    """Log records with the simulated process that wrote them."""

    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, r):
        self.records.append((simmp.pid(), r.levelno, r.getMessage()))


TAGGED = Tagged()
hp.loggers.hyperLogger.handlers[:] = [TAGGED]


class Stub:
    """Replaces local_search by a table {strategy: value}; the solution encodes the strategy.
    One 1x1 item in a 10x10 container: the initial construction has value 0.01."""

    INIT_VALUE = 0.01

    def __init__(self, table, strip=False):
        self.table = table
        self.index = {st: k for k, st in enumerate(table)}
        self.strip = strip
        self.cid = "strip-pack-container" if strip else "c"
        self.ran = []          # (pid, strategy) in global order

    def __enter__(self):
        self.saved = hp.HyperPack.local_search
        stub = self

        def local_search(prob, *, throttle=True, _hypersearch=False, debug=False):
            st = tuple(prob.potential_points_strategy)
            if simmp.SIM is not None:
                simmp.SIM.fault("strategy")
            stub.ran.append((simmp.pid(), st))
            if stub.clock is not None:
                stub.clock(len(stub.ran))
            prob.solution = stub.solution(st)
            prob.obj_val_per_container = {stub.cid: stub.table[st]}

        self.clock = None
        hp.HyperPack.local_search = local_search
        return self

    def __exit__(self, *a):
        hp.HyperPack.local_search = self.saved

    def solution(self, st):
        return {self.cid: {"i0": [2 + self.index[st], 1, 1, 1]}}

    def problem(self, workers, **settings):
        where = {"strip_pack_width": 100} if self.strip else {"containers": {"c": {"W": 10, "L": 10}}}
        p = hp.HyperPack(items={"i0": {"w": 1, "l": 1}}, **where,
                         settings=dict({"workers_num": workers, "max_time_in_seconds": 100000}, **settings))
        p.potential_points_strategy = INIT
        return p

    def initial(self):
        return {self.cid: {"i0": [0, 0, 1, 1]}}


class Recorder:
    """Records the evaluations of every (simulated) process, like trace.recorder, by wrapping
    the extension points of hp.HyperPack itself.  self.logs: {pid: [trace.Rec]}."""

    def __enter__(self):
        self.logs, self.inside = {}, set()
        self.saved = {n: hp.HyperPack.__dict__.get(n) for n in ("solve", "evaluate_node", "get_init_solution")}
        for name, kind in (("solve", "solve"), ("evaluate_node", "node"), ("get_init_solution", "init")):
            self._wrap(name, kind, getattr(hp.HyperPack, name))
        return self

    def _wrap(self, name, kind, original):
        me = self

        def wrapper(prob, *a, **k):
            pid = simmp.pid()
            if pid in me.inside:
                return original(prob, *a, **k)
            r = trace.Rec()
            seq = k.get("sequence", a[0] if a else None)
            r.kind, r.sequence = kind, None if seq is None else list(seq)
            r.strategy, r.before = prob.potential_points_strategy, prob.container_height
            me.inside.add(pid)
            try:
                out = original(prob, *a, **k)
            finally:
                me.inside.discard(pid)
            r.value, r.values = prob.calculate_obj_value(), dict(prob.obj_val_per_container)
            r.solution, r.after = trace.copy(prob.solution), prob.container_height
            me.logs.setdefault(pid, []).append(r)
            return out
        setattr(hp.HyperPack, name, wrapper)

    def __exit__(self, *a):
        for n, f in self.saved.items():
            if f is None:
                delattr(hp.HyperPack, n)
            else:
                setattr(hp.HyperPack, n, f)


def set_pool(pool):
    hp.constants.DEFAULT_POTENTIAL_POINTS_STRATEGY_POOL = tuple(pool)


def outcome(prob):
    best = getattr(prob, "best_strategy", None)
    return (trace.copy(prob.solution), prob.calculate_obj_value(),
            tuple(best) if best is not None else None)


def chunks(pool, workers):
    """Which worker handled which strategies is not fixed by the property; contiguous."""
    import math
    n = math.ceil(len(pool) / workers)
    return [pool[i:i + n] for i in range(0, len(pool), n)]


def schedules(make, preemptions, ctx, faults=None, capacity=65536, extra=None, **kw):
    """Runs hypersearch under every schedule; yields (sim, prob, error)."""
    visited = {}
    for ch in ls.Choices():
        prob = make()
        sim = simmp.Sim(ch, preemptions, faults, capacity, visited=visited, extra=extra)
        TAGGED.records.clear()
        error = None
        try:
            sim.run(lambda: prob.hypersearch(_exhaustive=False, **kw))
        except hp.exceptions.MultiProcessError as e:
            error = e
        except simmp.Prune:
            ctx.trans(sim.points)
            ctx.count("pruned_schedules")
            continue
        except simmp.Deadlock as e:
            raise Violation("%s | faults %s, schedule %s" % (e, sim.fired or faults, sim.trace))
        ctx.trans(sim.points)
        ctx.count("schedules")
        ctx.validated()
        yield sim, prob, error
    ctx.state(max(1, len(visited)))


def one(make, exhaustive=False, **kw):
    """Hypersearch under the first schedule only."""
    prob = make()
    sim = simmp.Sim(ls.Choices(), 0, max_ops=10**7)
    sim.run(lambda: prob.hypersearch(_exhaustive=exhaustive, **kw))
    return sim, prob


def real_runs(ctx, which):
    """The same stubbed scenarios with real processes (mc/realmp.py), to bind the simulated
    multiprocessing to the real one."""
    import json
    import os
    import subprocess
    import core
    here = os.path.dirname(os.path.abspath(__file__))
    script = "realstart.py" if which == "start" else "realmp.py"
    p = subprocess.Popen([core.python(), os.path.join(here, script), which],
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=150)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        raise Violation("real processes: hypersearch does not end (%s)" % which)
    if p.returncode not in (0, 1):
        raise RuntimeError("%s ended with %s" % (script, p.returncode))
    for line in out.splitlines():
        r = json.loads(line)
        ctx.trans()
        ctx.validated()
        if r["error"]:
            raise Violation("real processes: %s | %s" % (r["error"], r["case"]))
    ctx.sample({"real processes": len(out.splitlines())})

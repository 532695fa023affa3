import itertools

import mp
import env
import landscape
import gen
import packspace as ps
import trace
from core import Violation

ID = "C08"
BOUNDS = {
    "quick": "every instant of expiry (before and during every evaluation of the search, and at every reading of the "
             "clock) for all multisets of <=3 items and part of 4, bin (1-2 containers) and strip, local_search and "
             "hypersearch with pools of 1-3 strategies, limits 1 and 60 (part: 2 to 10^9), fresh and after 1-2 earlier "
             "searches; 2-3 worker processes with pools of 3-4 "
             "strategies: every instant x every schedule with <=1 preemption (switches at blocking operations free); searches of 6-80 elements (15-3160 neighbours), every or "
             "every 5th-17th instant",
    "thorough": "4 and 5 items, more containers and pools, 4 workers",
}
ORACLE = ("incremental best of the recorded evaluations; number of evaluations after the expiry; "
          "identical to the unlimited search when the limit is not exceeded")
hp = mp.hp
T0 = 1_000_000.0


def cases(tier):
    q = tier == "quick"
    alpha = [(1, 2), (2, 1), (3, 1), (2, 2), (1, 3)]
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for ms in gen.multisets(alpha if n < 4 else alpha[1:4], n):
            for conts in ([(3, 3)], [(4, 3)], [(2, 3), (3, 2)]):
                yield {"k": "local", "conts": conts, "items": list(ms)}
                if n < 4 or not q:
                    yield {"k": "hyper", "conts": conts, "items": list(ms), "pool": ps.POOLS[1 + n % 3]}
            for h, mh in ((0, 0), (4, 0), (3, 2)):
                yield {"k": "local", "strip": 1, "W": 3, "height": h, "min_height": mh, "items": list(ms)}
                if n < 4:
                    yield {"k": "hyper", "strip": 1, "W": 3, "height": h, "min_height": mh,
                           "items": list(ms), "pool": ps.POOLS[3]}


    # searches on instances that searched before, long ago, or till the limit
    for prior in itertools.product(("hyper", "local", "solve", "late"), repeat=2) if not q else (
            ("hyper",), ("local",), ("late",), ("hyper", "local"), ("local", "hyper"), ("late", "solve"), ("late", "hyper")):
        for ms in gen.multisets(alpha[1:], 3):
            yield {"k": "local", "conts": [(4, 3)], "items": list(ms), "prior": prior}
            yield {"k": "hyper", "conts": [(3, 3)], "items": list(ms), "pool": ps.POOLS[1], "prior": prior}
            yield {"k": "local", "strip": 1, "W": 3, "height": 0, "min_height": 0, "items": list(ms), "prior": prior}
    limits = (2, 10, 100, 601, 3601, 7201, 86401, 10 ** 5, 604801, 10 ** 6 + 1, 10 ** 7 + 1, 10 ** 9 + 1)
    for ms in ([(1, 2), (3, 1), (2, 2)], [(2, 1), (1, 2)], [(1, 1), (1, 1), (1, 1), (1, 3)]):
        yield {"k": "local", "conts": [(4, 3)], "items": ms, "limits": limits}
        yield {"k": "hyper", "conts": [(3, 3)], "items": ms, "pool": ps.POOLS[1], "limits": limits}
        yield {"k": "local", "strip": 1, "W": 3, "height": 0, "min_height": 0, "items": ms, "limits": limits}
    for n, step in ((6, 1), (9, 1), (12, 1), (13, 1), (20, 1), (30, 1), (46, 5), (72, 11), (73, 11), (80, 17)) + (
            () if q else ((50, 1), (72, 1), (73, 1), (100, 7))):
        for throttle in (True, False):
            for every, upto in ((0, 0), (1, 30), (7, 200), (100, 3 * n)):
                yield {"k": "many", "n": n, "step": step, "every": every, "upto": upto, "throttle": throttle,
                       "most": 400 if q else 4000}
    for n, step in ((8, 1), (13, 1), (20, 5)) + (() if q else ((20, 1), (30, 3))):
        for throttle in (True, False):
            yield {"k": "many", "n": n, "step": step, "every": 0, "throttle": throttle, "class": 1}
    # worker processes: every instant of expiry x every schedule up to the preemption bound
    for n, dims in ((2, [(1, 2), (3, 1)]), (3, [(1, 2), (3, 1), (2, 1)]), (3, [(2, 2), (1, 3), (3, 1)])):
        for conts in ([(3, 2)], [(2, 2), (2, 1)], [(3, 3)], "strip"):
            for workers, pool in ((2, 3), (2, 4), (3, 3)) if q else ((2, 2), (2, 3), (2, 4), (2, 6), (3, 3), (3, 5), (4, 4)):
                yield {"k": "workers", "n": n, "items": dims, "conts": conts, "workers": workers, "pool": pool,
                       "pre": 0 if n > 2 and q or workers > 2 else 1}


def many(case, ctx):
    """Large neighbourhoods: every instant of expiry in searches of many cheap evaluations."""
    n, every = case["n"], case["every"]
    Toy = landscape.toy(hp)
    if case.get("class"):
        cls = trace.recorder(hp.HyperPack)
        items = {"%d" % (n - k): {"w": 1 + k % 2, "l": 1 + k % 3} for k in range(n)}
        c = {"k": "local", "conts": [(3, 3)], "items": [[i["w"], i["l"]] for i in items.values()], "throttle": case["throttle"]}
        free, flog = execute(cls, c, items, False, 60, None, 0)
        for at in range(0, len(flog), case["step"]):
            prob, log = execute(cls, c, items, False, 60, at, 0)
            judge(prob, log, c, at, "%s, expires during evaluation %d of %d" % (case, at, len(flog)))
            ctx.trans(len(log))
        ctx.state()
        ctx.validated()
        return

    def search(at, limit=60):
        t = Toy(n, lambda s: 0, "MAX")
        val = [0]
        t.value_of = lambda s: val[0]

        def node(sequence):
            k = len(t.trace)
            if at is not None and k >= at:
                env.CLOCK.now = T0 + limit + 0.001
            val[0] = (k + 1) // every if every and k < case["upto"] else val[0]
            t.trace.append((None, val[0]))
        t.evaluate_node = node
        env.CLOCK.start(T0)
        try:
            r = t.local_search(list(range(n)), case["throttle"], T0, limit, debug=False)
        finally:
            env.CLOCK.stop()
        return len(t.trace), r[1], val[0]
    total, best, _ = search(None)
    # every or every k-th instant
    for at in range(0, total, max(case["step"], total // case.get("most", 400))):
        k, got, last = search(at)
        if k - at > 3:
            raise Violation("%d packings evaluated after the limit had passed | %s, expires during evaluation %d of %d" % (
                k - at - 1, case, at, total))
        if got != last:
            raise Violation("value %s although %s was evaluated | %s, expires during evaluation %d" % (got, last, case, at))
        ctx.trans(k)
    ctx.state()
    ctx.validated()
    ctx.outcome((case["n"], every, total))


class WorkerLog:
    """Records solve() of every simulated process in global order; the clock passes the limit
    during evaluation `at`."""

    def __init__(self, at, over):
        self.log, self.at, self.over = [], at, over

    def __enter__(self):
        self.saved = hp.HyperPack.solve
        me = self

        def solve(prob, *a, **k):
            mp.simmp.point("evaluation")
            if me.at is not None and len(me.log) == me.at:
                env.CLOCK.now = me.over
            r = [mp.simmp.pid(), None, None, None]
            me.log.append(r)
            me.saved(prob, *a, **k)
            r[1:] = prob.calculate_obj_value(), trace.copy(prob.solution), dict(prob.obj_val_per_container)
        hp.HyperPack.solve = solve
        return self

    def __exit__(self, *a):
        hp.HyperPack.solve = self.saved


def workers(case, ctx):
    strip = case["conts"] == "strip"
    n, limit = len(case["items"]), 60
    pool = mp.PERMS[:case["pool"]]
    mp.set_pool(pool)
    items = gen.ids([tuple(i) for i in case["items"]])
    build = {"strip": 1, "W": 3} if strip else {"conts": case["conts"]}
    for rot in (False, True):
        total, at = None, None
        while True:
            for ch in mp.ls.Choices():
                prob = ps.make(hp, build, items, rot, workers_num=case["workers"], max_time_in_seconds=limit)
                prob.potential_points_strategy = mp.INIT
                sim = mp.simmp.Sim(ch, case["pre"], max_ops=10 ** 6)
                env.CLOCK.start(T0)
                try:
                    with WorkerLog(at, T0 + limit + 0.001) as w:
                        sim.run(lambda: prob.hypersearch(orientation=None, sorting_by=None, _exhaustive=False))
                finally:
                    env.CLOCK.stop()
                info = "%s rotation %s expires during evaluation %s, schedule %s" % (case, rot, at, sim.trace)
                ctx.trans(len(w.log))
                ctx.validated()
                val = prob.calculate_obj_value()
                sol = prob.solution
                ctx.outcome((at, val, len(w.log)))
                if not any(r[2] == sol and r[3] == prob.obj_val_per_container for r in w.log):
                    raise Violation("result %s was never evaluated | %s" % (sol, info))
                if strip:
                    ok = [r for r in w.log if trace.placed(r[2]) == n]
                    init = w.log[0]
                    if trace.placed(init[2]) == n:
                        if trace.placed(sol) != n or val < init[1] - 1e-12:
                            raise Violation("result %s worse than the initial %s | %s" % (sol, init[2], info))
                else:
                    best = max(r[1] for r in w.log)
                    if val < best - 1e-12:
                        raise Violation("value %s although %s was evaluated before stopping | %s" % (val, best, info))
                if at is None:
                    if total is None:
                        total = len(w.log)
                        # never ended early: every strategy of the pool is searched (construct + neighbours)
                    elif strip and total != len(w.log):
                        raise Violation("evaluations depend on the schedule: %d, %d | %s" % (total, len(w.log), info))
                else:
                    late = {}
                    for k, r in enumerate(w.log):
                        if k > at:
                            late.setdefault(r[0], []).append(k)
                    for pid, ks in late.items():
                        first = not any(r[0] == pid for r in w.log[:at + 1])
                        if len(ks) > 2 + first:
                            raise Violation("process %d evaluated %d packings after the limit had passed | %s"
                                            % (pid, len(ks), info))
            ctx.state()
            if at is None:
                # the limit is nearly reached, never exceeded: the same searches
                prob = ps.make(hp, build, items, rot, workers_num=case["workers"], max_time_in_seconds=limit)
                prob.potential_points_strategy = mp.INIT
                env.CLOCK.start(T0)
                try:
                    with WorkerLog(0, T0 + limit - 0.001) as w:
                        mp.simmp.Sim(mp.ls.Choices(), 0, max_ops=10 ** 6).run(
                            lambda: prob.hypersearch(orientation=None, sorting_by=None, _exhaustive=False))
                finally:
                    env.CLOCK.stop()
                if len(w.log) != total:
                    raise Violation("the limit ended the workers' search 0.001 s before it passed: %d of %d "
                                    "evaluations | %s rotation %s" % (len(w.log), total, case, rot))
            at = 0 if at is None else at + 1
            if at >= total:
                break


def search(prob, case):
    if case["k"] == "local":
        prob.local_search(throttle=case.get("throttle", True))
    else:
        prob.hypersearch(orientation=None, sorting_by=None, _exhaustive=False)


def earlier(prob, case, limit):
    """What the instance did before, days ago."""
    for k, op in enumerate(case.get("prior", ())):
        start = T0 - 10 ** 6 + 10 ** 5 * k
        env.CLOCK.start(start, (lambda clock: setattr(clock, "now", start + limit + 7)) if op == "late" else None)
        try:
            if op == "hyper":
                prob.hypersearch(orientation=None, sorting_by=None, _exhaustive=False)
            elif op == "solve":
                prob.solve()
            else:
                prob.local_search()
        finally:
            env.CLOCK.stop()
    if case.get("prior") and case.get("strip"):
        prob.reset_container_height()


def execute(cls, case, items, rot, limit, at, late, read=None):
    """at: the evaluation during which the clock jumps past the limit (None: never).
    read: the reading of the clock at which it has passed.  late: seconds on the clock otherwise."""
    prob = ps.make(hp, case, items, rot, cls, max_time_in_seconds=limit)
    earlier(prob, case, limit)
    prob.log = []
    over = T0 + limit + 0.001

    def hook(k):
        if at is not None and k == at:
            env.CLOCK.now = over
        elif late and env.CLOCK.now < T0 + late:
            # the clock creeps up to just below the limit
            env.CLOCK.now = max(env.CLOCK.now, T0 + late * min(1, (k + 1) / 4))

    def on_read(clock):
        if clock.reads >= read and prob.expired_at is None:
            clock.now, prob.expired_at = over, len(prob.log)

    prob.hook, prob.expired_at = hook, None
    env.CLOCK.start(T0, on_read if read else None)
    try:
        search(prob, case)
    finally:
        env.CLOCK.stop()
    log, prob.log, prob.hook = prob.log, None, None
    prob.reads = env.CLOCK.reads
    return prob, log


def judge(prob, log, case, at, info):
    n = len(case["items"])
    sol, val = prob.solution, prob.calculate_obj_value()
    match = [r for r in log if r.solution == sol and r.values == prob.obj_val_per_container]
    if not match:
        raise Violation("result %s %s was never evaluated | %s" % (sol, prob.obj_val_per_container, info))
    init = log[0]
    strip = case.get("strip")
    complete = lambda r: trace.placed(r.solution) == n
    if val < init.value - 1e-12:
        raise Violation("value %s worse than the initial one %s | %s" % (val, init.value, info))
    if not strip:
        best = max(r.value for r in log)
        if val < best - 1e-12:
            raise Violation("value %s although %s was evaluated before stopping | %s" % (val, best, info))
    elif not case.get("min_height"):
        if complete(init):
            if trace.placed(sol) != n:
                raise Violation("complete initial solution replaced by an incomplete one | %s" % info)
        if complete(init) and case["k"] == "local":
            best = max(r.value for r in log if complete(r))
            if val < best - 1e-12:
                raise Violation("value %s although %s was evaluated before stopping | %s" % (val, best, info))
    elif case["k"] == "local":
        best = max(r.value for r in log)
        if val < best - 1e-12:
            raise Violation("value %s although %s was evaluated before stopping | %s" % (val, best, info))
    if at is not None:
        late = len(log) - (at + 1)
        if late > 2:
            raise Violation("%d packings evaluated after the limit had passed | %s" % (late, info))


def run(case, ctx):
    if case["k"] in ("workers", "many"):
        return globals()[case["k"]](case, ctx)
    cls = trace.recorder(hp.HyperPack)
    if case.get("pool"):
        ps.set_pool(hp, [tuple(s) for s in case["pool"]])
    for order in gen.orders([tuple(i) for i in case["items"]])[:6]:
        items = gen.ids(order)
        for rot in (False, True):
            for limit in case.get("limits", (60, 1)):
                free, flog = execute(cls, case, items, rot, limit, None, 0)
                base = "%s items %s rotation %s limit %s" % (case, items, rot, limit)
                judge(free, flog, case, None, base)
                ctx.state()
                ctx.trans(len(flog))
                # the limit is never exceeded: same search
                near, nlog = execute(cls, case, items, rot, limit, None, limit - 0.001)
                if len(nlog) != len(flog) or near.solution != free.solution:
                    raise Violation("the limit ended a search %0.3f s before it passed: %d of %d "
                                    "evaluations | %s" % (0.001, len(nlog), len(flog), base))
                if case.get("prior"):
                    fresh, rlog = execute(cls, dict(case, prior=()), items, rot, limit, None, 0)
                    if len(rlog) != len(flog) or fresh.solution != free.solution:
                        raise Violation("%d evaluations, a fresh instance makes %d | %s" % (len(flog), len(rlog), base))
                # between two evaluations: at every reading of the clock but the starting one
                for read in range(2, free.reads + 1):
                    prob, log = execute(cls, case, items, rot, limit, None, 0, read)
                    if prob.expired_at is not None:
                        judge(prob, log, case, prob.expired_at - 1 if prob.expired_at else None, "%s, expires at reading %d of the clock" % (base, read))
                    ctx.trans(len(log))
                for at in range(len(flog)):
                    prob, log = execute(cls, case, items, rot, limit, at, 0)
                    judge(prob, log, case, at, "%s, expires during evaluation %d of %d" % (base, at, len(flog)))
                    ctx.state()
                    ctx.trans(len(log))
                    ctx.validated()
                    ctx.outcome((len(log), repr(prob.solution)))

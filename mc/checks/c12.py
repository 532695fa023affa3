import itertools

import gen
import mp
import packspace as ps
from core import Violation

ID = "C12"
CPU_LIMIT = 400
PIN = True
BOUNDS = {
    "quick": "2 workers: every value table over {worse, tie, better, best, optimum} for 2-4 strategies, "
             "all schedules with <=2 preemptions (<=3 for 2 strategies); 3 workers: 3-4 strategies, <=1; "
             "real problems with 2-4 strategies; results below and above the pipe capacity; 2-129 "
             "workers with the best result in every one, one schedule; real "
             "processes under every start method (fork, spawn, forkserver)",
    "thorough": "one more preemption, 6 strategies",
}
ORACLE = ("value = best over all strategies = single process value; value, solution and strategy "
          "belong together; no deadlock in any schedule")
NOTE = ("The real parent and worker code runs as threads of a controlled multiprocessing (fork, pipes "
        "with end of file and capacity, shared memory, join); schedules switch at operations on "
        "shared objects. Sequentially consistent shared memory is assumed. Strip packing: workers do "
        "not share heights, so the value is compared with the best of a single process search over each "
        "worker's strategies.")
hp = mp.hp
VALS = [0.005, 0.01, 0.3, 0.5, 1.0]


def cases(tier):
    q = tier == "quick"
    more = 0 if q else 1
    for workers, n, pre, vals in ((2, 2, 3 + more, VALS), (2, 3, 2 + more, VALS), (3, 3, 1 + more, VALS),
                                  (2, 4, 1 + more, [0.005, 0.3, 0.5, 1.0]),
                                  (3, 4, 1, [0.005, 0.3, 1.0]), (4, 4, 0 + more, [0.005, 0.3, 1.0])):
        for tab in itertools.product(vals, repeat=n):
            for cap in (65536, 16):
                p = pre if cap == 65536 or n < 3 else pre - 1
                yield {"k": "stub", "workers": workers, "table": list(tab), "pre": p, "cap": cap}
    for workers in (2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 64, 65, 100, 128, 129):
        yield {"k": "crowd", "workers": workers}
    probs = [([(1, 2), (3, 1), (2, 2)], (3, 4)), ([(1, 2), (2, 1), (2, 2)], (3, 3)),
             ([(3, 1), (1, 3), (2, 2)], (4, 3)), ([(2, 1), (2, 1)], (2, 2)), ([(2, 2)], (3, 3)),
             ([(1, 3), (2, 2), (2, 1), (1, 1)], (4, 4))]
    for items, (W, L) in probs:
        for strip in (0, 1):
            for workers, n in ((2, 2), (2, 4), (3, 3)) + (() if q else ((3, 6), (2, 6))):
                for cap in (65536, 16):
                    yield {"k": "real", "items": items, "conts": [(W, L)], "strip": W if strip else 0,
                           "workers": workers, "n": n, "pre": 1 + more, "cap": cap}
    # several containers, limited strips
    for items, conts in (([(1, 2), (3, 1), (2, 2)], [(2, 3), (3, 2)]), ([(2, 2), (2, 1), (1, 3)], [(3, 3), (2, 1)]),
                         ([(2, 1), (1, 1), (1, 2)], [(2, 1), (1, 2), (2, 2)])):
        for workers, n in ((2, 2), (2, 4), (3, 3)):
            yield {"k": "real", "items": items, "conts": conts, "strip": 0, "workers": workers, "n": n,
                   "pre": more, "cap": 65536}
    for items, W in (([(1, 2), (3, 1), (2, 2)], 3), ([(1, 3), (2, 2), (2, 1), (1, 1)], 4), ([(2, 1), (1, 2), (1, 1)], 2)):
        for h, m in ((5, 0), (4, 0), (3, 2), (6, 5), (0, 4), (2, 1)):
            for workers, n in ((2, 2), (2, 4), (3, 3)):
                yield {"k": "real", "items": items, "conts": [], "strip": W, "height": h, "min": m,
                       "workers": workers, "n": n, "pre": more, "cap": 65536}


def stub(case, ctx):
    pool = mp.PERMS[:len(case["table"])]
    table = dict(zip(pool, case["table"]))
    mp.set_pool(pool)
    with mp.Stub(table) as s:
        one = s.problem(1)
        one.hypersearch(_exhaustive=False)
        single = one.calculate_obj_value()
        best = max([s.INIT_VALUE] + case["table"])
        if abs(single - best) > 1e-12:
            raise Violation("single process value %s, best is %s | %s" % (single, best, table))
        seen = set()
        for sim, prob, error in mp.schedules(lambda: s.problem(case["workers"]), case["pre"], ctx,
                                             capacity=case["cap"]):
            info = "values %s, %d workers, capacity %d, schedule %s" % (
                table, case["workers"], case["cap"], sim.trace)
            if error is not None:
                raise Violation("MultiProcessError without a failure | %s" % info)
            sol, val, st = mp.outcome(prob)
            key = (val, st)
            if key not in seen:
                seen.add(key)
                ctx.outcome((case["table"], key))
            if abs(val - best) > 1e-12:
                raise Violation("value %s, the best any worker finds is %s | %s" % (val, best, info))
            check_triple(s, table, sol, val, st, info)
            if any(lv >= 40 for _, lv, _ in mp.TAGGED.records):
                raise Violation("error logged: %s | %s" % (mp.TAGGED.records, info))


def crowd(case, ctx):
    """Many workers, the best result in every one of them; one schedule."""
    n = case["workers"]
    pool = list(itertools.permutations(gen.CLASSES, 4))[:n * 2]
    mp.set_pool(pool)
    for at in range(0, 2 * n, 1 if n < 20 else 3 if n < 70 else 7):
        for shape in ("flat", "none", "ties", "optimum", "near", "nearer"):
            table = {st: {"flat": 0.3, "none": 0.001, "ties": 0.7 if k % 2 else 0.2, "optimum": 0.4,
                           "near": 0.7 - 1e-5 * (k % 3), "nearer": 0.4}[shape] for k, st in enumerate(pool)}
            table[pool[at]] = {"flat": 0.31, "none": 0.02, "ties": 0.7, "optimum": 1.0,
                               "near": 0.70003, "nearer": 0.4 + 1e-7}[shape]
            with mp.Stub(table) as s:
                mp.TAGGED.records.clear()
                sim, prob = mp.one(lambda: s.problem(n))
                sol, val, st = mp.outcome(prob)
                best = max(table.values())
                info = "%d workers, %d strategies, best one %d (%s)" % (n, len(pool), at, shape)
                if abs(val - best) > 1e-12:
                    raise Violation("value %s, the best any worker finds is %s | %s" % (val, best, info))
                check_triple(s, table, sol, val, st, info)
                if any(lv >= 40 for _, lv, _ in mp.TAGGED.records):
                    raise Violation("error logged: %s | %s" % (mp.TAGGED.records, info))
                ctx.state()
                ctx.trans(sim.points)
                ctx.validated()
                ctx.outcome((val, st))


def check_triple(s, table, sol, val, st, info):
    if st == mp.INIT:
        want, v = s.initial(), s.INIT_VALUE
    elif st in table:
        want, v = s.solution(st), table[st]
    else:
        raise Violation("best strategy %s is no strategy of the search | %s" % (st, info))
    if sol != want or abs(v - val) > 1e-12:
        raise Violation("strategy %s yields %s value %s, reported %s value %s | %s" % (
            st, want, v, sol, val, info))


def real(case, ctx):
    pool = mp.PERMS[:case["n"]]
    mp.set_pool(pool)
    items = gen.ids(case["items"])

    def make(workers):
        st = {"workers_num": workers, "max_time_in_seconds": 100000}
        if case["strip"]:
            p = hp.HyperPack(items=items, settings=st, strip_pack_width=case["strip"])
            if case.get("height"):
                p.container_height = case["height"]
            if case.get("min"):
                p.container_min_height = case["min"]
        else:
            p = hp.HyperPack(containers=ps.containers_of(case), items=items, settings=st)
        p.potential_points_strategy = mp.INIT
        return p

    cache = {}

    def alone(chunk):
        """What one process finds over these strategies."""
        if chunk not in cache:
            mp.set_pool(chunk)
            one = make(1)
            one.hypersearch(_exhaustive=False)
            mp.set_pool(pool)
            cache[chunk] = one.calculate_obj_value()
        return cache[chunk]

    single = alone(tuple(pool))
    with mp.Recorder() as rec:
        def start():
            rec.logs.clear()
            return make(case["workers"])
        runs(case, ctx, start, make, rec, alone, single)


def runs(case, ctx, start, make, rec, alone, single):
    seen = set()
    for sim, prob, error in mp.schedules(start, case["pre"], ctx, capacity=case["cap"]):
        logs = {pid: list(log) for pid, log in rec.logs.items() if pid}
        info = "%s schedule %s" % (case, sim.trace)
        if error is not None:
            raise Violation("MultiProcessError without a failure | %s" % info)
        sol, val, st = mp.outcome(prob)
        if repr(sol) not in seen:
            seen.add(repr(sol))
            ctx.outcome(repr(sol))
        if not case["strip"] and abs(val - single) > 1e-9:
            raise Violation("value %s, single process finds %s | %s" % (val, single, info))
        if case["strip"]:
            # each worker is a search over its own strategies
            best = max(alone(tuple(r.strategy for r in log[1:] if r.kind == "init")) for log in logs.values())
            if abs(val - best) > 1e-9:
                raise Violation("value %s, the best any of the workers can find is %s | %s" % (val, best, info))
        if not any(r.solution == sol and abs(r.value - val) < 1e-12 for log in logs.values() for r in log):
            raise Violation("no worker found %s | %s" % (sol, info))
        # the strategy reproduces the value
        f = make(1)
        f.sort_items()
        f.orient_items()
        f.potential_points_strategy = st
        f.solve()
        v0 = f.calculate_obj_value()
        f.local_search()
        if not any(abs(v - val) < 1e-9 for v in (v0, f.calculate_obj_value())):
            raise Violation("reported strategy %s gives %s, reported value %s | %s" % (
                st, f.calculate_obj_value(), val, info))


def run(case, ctx):
    globals()[case["k"]](case, ctx)


def finish(ctx):
    mp.real_runs(ctx, "schedule")
    mp.real_runs(ctx, "start")

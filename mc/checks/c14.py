import itertools

import gen
import mp
import packspace as ps
import trace
from core import Violation

ID = "C14"
PIN = True
BOUNDS = {
    "quick": "every multiset of <=4 items (5-6 in part) over small alphabets whose area is within one unit of "
             "the containers' area, 1-3 containers up to 4x4, every order, rotation, local_search and "
             "hypersearch with pools of 1-3 strategies; single uncovered units in containers up to "
             "3000x3000; coverings by up to 700 tiles; 2-3 workers: every value table with 0-2 optima / near optima for 2-4 "
             "strategies under all schedules with <=1-2 preemptions",
    "thorough": "5-6 items, 4x5 containers, one more preemption",
}
ORACLE = ("area coverage computed from the recorded packings; evaluations after the first fully covered "
          "one; exchanges and strategies left out although no covered one was found")
NOTE = "Single process: every evaluated packing is recorded; workers: local_search replaced by a value table."
hp = mp.hp
FILLS = [("A", "B", "C", "D", "A_", "B_") + gen.SUFFIX, ("B", "A"), ("C", "D"), ("B_", "A", "E")]


def cases(tier):
    q = tier == "quick"
    alphas = {2: gen.dims(4), 3: gen.dims(3) + [(4, 1), (1, 4), (4, 2), (2, 4)],
              4: [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3)],
              5: [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)], 6: [(1, 1), (2, 1), (1, 2)]}
    spaces = [[(2, 2)], [(3, 2)], [(2, 3)], [(3, 3)], [(4, 3)], [(4, 4)], [(2, 2), (2, 1)], [(2, 1), (2, 2)],
              [(2, 2), (1, 2), (2, 1)], [(3, 2), (2, 2)], [(3, 3), (1, 3)], [(1, 1), (1, 1)]]
    yield {"k": "single", "conts": [[1, 1]], "items": [[1, 1]]}
    for n in (1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6):
        for ms in gen.multisets(alphas.get(n, gen.dims(4)), n):
            area = sum(w * l for w, l in ms)
            for conts in spaces + ([] if q else [[(5, 4)], [(4, 5)], [(4, 2), (3, 2)]]):
                total = sum(w * l for w, l in conts)
                if area in (total - 1, total) or area == total + 1 and n < 4:
                    yield {"k": "single", "conts": conts, "items": list(ms)}
    for W, L in ((100, 100), (1000, 1000), (3000, 3000), (1, 1000), (2000, 3)):
        for conts in ([(W, L)], [(2, 2), (W, L)], [(W, L), (2, 2)]):
            for lack in (0, 1):
                yield {"k": "big", "conts": conts, "W": W, "L": L, "lack": lack}
    # many items: values are sums of many fractions
    for W in list(range(1, 14)) + [17, 20, 23, 25, 30] + ([] if q else [40, 50]):
        yield {"k": "tiles", "W": W}
    for workers, n, pre in ((2, 2, 2), (2, 3, 2), (3, 3, 1), (2, 4, 1), (3, 4, 1)):
        for tab in itertools.product((0.3, 0.99, 1.0), repeat=n):
            if sum(v == 1.0 for v in tab) <= 2:
                yield {"k": "workers", "workers": workers, "table": list(tab), "pre": pre + (0 if q else 1)}


def full(solution, conts):
    return all(sum(s[2] * s[3] for s in solution[c].values()) == d["W"] * d["L"] for c, d in conts.items())


def searches(case, items, rot, pools):
    cls = trace.recorder(hp.HyperPack)
    for st in FILLS:
        p = ps.make(hp, case, items, rot, cls)
        p.potential_points_strategy = st
        p.log = []
        p.local_search(throttle=True)
        yield p, None, "local_search strategy %s" % (st,)
    for pool in pools:
        mp.set_pool(pool)
        p = ps.make(hp, case, items, rot, cls)
        p.potential_points_strategy = FILLS[-1]
        p.log = []
        p.hypersearch(orientation=None, sorting_by=None, _exhaustive=False)
        yield p, pool, "hypersearch pool %s" % (pool,)


def judge(p, pool, conts, n, info):
    log, p.log = p.log, None
    k = next((i for i, r in enumerate(log) if full(r.solution, conts)), None)
    if k is not None:
        if k != len(log) - 1:
            raise Violation("%d packings evaluated after a complete covering was found | %s" % (
                len(log) - 1 - k, info))
        if p.solution != log[k].solution or p.obj_val_per_container != log[k].values:
            raise Violation("the covering %s was found but %s is returned | %s" % (
                log[k].solution, p.solution, info))
        return
    judge_runs(log[1:] if pool is not None else log, pool, n, info)


def judge_runs(log, pool, n, info):
    """No covering was found: every strategy and every exchange must have been tried."""
    runs = []
    for r in log:
        if r.kind == "init":
            runs.append([r])
        else:
            runs[-1].append(r)
    if pool is not None:
        ran = {r.strategy for run in runs for r in run[:1]}
        missing = [s for s in pool if s not in ran]
        if missing:
            raise Violation("strategies %s were not searched although no covering was found | %s" % (
                missing, info))
    for run in runs:
        best, since = run[0].value, 0
        for r in run[1:]:
            since += 1
            if r.value > best:
                best, since = r.value, 0
        if since < n * (n - 1) // 2:
            raise Violation("only %d exchanges of the last node tried although no covering was found | %s" % (
                since, info))


def single(case, ctx):
    items0 = [tuple(i) for i in case["items"]]
    n = len(items0)
    conts = ps.containers_of(case)
    pools = [FILLS[:2], [FILLS[2], FILLS[1], FILLS[0]]]
    for order in gen.orders(items0)[:24 if n < 5 else 8]:
        for rot in (False, True):
            items = gen.ids(order)
            for p, pool, what in searches(case, items, rot, pools):
                ctx.state()
                ctx.trans(len(p.log))
                ctx.validated()
                ctx.outcome(p.solution)
                judge(p, pool, conts, n, "%s containers %s items %s rotation %s" % (what, conts, items, rot))
        if n < 4:
            # real worker processes on the same problem
            mp.set_pool(FILLS[:3])
            with mp.Recorder() as rec:
                sim, p = mp.one(lambda: ps.make(hp, case, items, True, workers_num=2),
                                orientation=None, sorting_by=None)
            one = ps.make(hp, case, items, True)
            one.hypersearch(orientation=None, sorting_by=None, _exhaustive=False)
            ctx.trans()
            if full(one.solution, conts) and not full(p.solution, conts):
                raise Violation("workers do not return the complete covering | containers %s items %s" % (
                    conts, items))
            logs = rec.logs.values()
            hit = [any(full(r.solution, conts) for r in log) for log in logs]
            for log, found in zip(logs, hit):
                if found:
                    k = next(i for i, r in enumerate(log) if full(r.solution, conts))
                    if k != len(log) - 1:
                        raise Violation("worker: %d packings evaluated after a complete covering was found | "
                                        "containers %s items %s" % (len(log) - 1 - k, conts, items))
            if any(hit):
                if not full(p.solution, conts):
                    raise Violation("covering found by a worker is not returned | containers %s items %s" % (
                        conts, items))
            else:
                judge_runs([r for log in logs for r in log[1:]], FILLS[:3], n,
                           "2 workers, containers %s items %s" % (conts, items))


def big(case, ctx):
    W, L = case["W"], case["L"]
    items = {}
    for c, (w, l) in enumerate(case["conts"]):
        if (w, l) != (W, L):
            items["i%d" % c] = {"w": w, "l": l}
        elif L == 1 or W == 1:
            items["b%d" % c] = {"w": w, "l": l - 1}
            if not case["lack"]:
                items["d%d" % c] = {"w": 1, "l": 1}
        else:
            items["b%d" % c] = {"w": w, "l": l - 1}
            items["d%d" % c] = {"w": w - case["lack"], "l": 1}
    conts = ps.containers_of(case)
    cls = trace.recorder(hp.HyperPack)
    p = ps.make(hp, case, items, False, cls)
    p.potential_points_strategy = FILLS[1]
    p.log = []
    p.local_search()
    ctx.state()
    ctx.validated()
    ctx.trans(len(p.log))
    judge(p, None, conts, len(items), "local_search containers %s items %s" % (conts, items))
    pool = FILLS[:2]
    mp.set_pool(pool)
    p = ps.make(hp, case, items, False, cls)
    p.log = []
    p.hypersearch(orientation=None, sorting_by=None, _exhaustive=False)
    ctx.trans(len(p.log))
    judge(p, pool, conts, len(items), "hypersearch containers %s items %s" % (conts, items))


def tiles(case, ctx):
    W = case["W"]
    cls = trace.recorder(hp.HyperPack)
    pool = FILLS[:2]
    mp.set_pool(pool)
    for L in list(range(1, 14)) + [17, 20, 23, 25, 30]:
        for w, l in ((1, 1), (W, 1), (1, L)):
            one = [(w, l)] * (W // w * (L // l))
            for conts in ([(W, L)], [(W, L)] * 2, [(W, L)] * 3, [(W, L), (1, 1), (W, L)]):
                sizes = [s for c in conts for s in (one if c == (W, L) else [(1, 1)])]
                if len(sizes) > 700:
                    continue
                if len(conts) == 4 and (w, l) != (1, 1):
                    continue
                case = {"conts": conts}
                for search in ("local", "hyper"):
                    p = ps.make(hp, case, gen.ids(sizes), False, cls, max_time_in_seconds=10**6)
                    p.potential_points_strategy = FILLS[1]
                    p.log = []

                    def hook(k):
                        if k > 5:
                            raise Violation("%s goes on after a complete covering | containers %s, items %s x %d" % (
                                search, conts, (w, l), len(sizes)))
                    p.hook = hook
                    if search == "local":
                        p.local_search()
                    else:
                        p.hypersearch(orientation=None, sorting_by=None, _exhaustive=False)
                    p.hook = None
                    ctx.state()
                    ctx.trans(len(p.log))
                    ctx.validated()
                    cs = ps.containers_of(case)
                    if not full(p.solution, cs):
                        continue
                    judge(p, None if search == "local" else pool, cs, len(sizes), "%s containers %s, %d items" % (
                        search, conts, len(sizes)))


def workers(case, ctx):
    pool = mp.PERMS[:len(case["table"])]
    table = dict(zip(pool, case["table"]))
    mp.set_pool(pool)
    with mp.Stub(table) as s:
        after = {}

        def started(k):
            me = mp.simmp.pid()
            for q in mp.simmp.SIM.procs[1:]:
                # a worker that found the optimum has delivered it already
                if q.pid != me and q.delivered and any(w == q.pid and table[st] == 1.0 for w, st in s.ran):
                    after[me, q.pid] = after.get((me, q.pid), 0) + 1

        s.clock = started

        def make():
            s.ran.clear()
            after.clear()
            return s.problem(case["workers"])

        for sim, prob, error in mp.schedules(make, case["pre"], ctx, extra=lambda: tuple(sorted(after.items()))):
            info = "values %s, %d workers, schedule %s, searched %s" % (
                table, case["workers"], sim.trace, s.ran)
            if error is not None:
                raise Violation("MultiProcessError without a failure | %s" % info)
            ctx.outcome((tuple(case["table"]), tuple(s.ran)))
            optimum = 1.0 in case["table"]
            per = {}
            for w, st in s.ran:
                per.setdefault(w, []).append(st)
            for w, sts in per.items():
                hit = [i for i, st in enumerate(sts) if table[st] == 1.0]
                if hit and hit[0] != len(sts) - 1:
                    raise Violation("worker %d goes on after it found a complete covering | %s" % (w, info))
            late = {k: v for k, v in after.items() if v > 1}
            if late:
                raise Violation("workers start strategies although another one delivered a complete covering: "
                                "%s | %s" % (late, info))
            if optimum and prob.calculate_obj_value() < 1.0:
                if any(table[st] == 1.0 for _, st in s.ran):
                    raise Violation("the complete covering found by a worker is not returned | %s" % info)
                raise Violation("search stopped before a complete covering was found | %s" % info)
            if not optimum and sorted(st for _, st in s.ran) != sorted(pool):
                raise Violation("strategies left out although no covering was found | %s" % info)


def run(case, ctx):
    globals()[case["k"]](case, ctx)

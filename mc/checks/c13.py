import itertools

import mp
from core import Violation

ID = "C13"
CPU_LIMIT = 400
LEVEL = "model_checking"
PIN = True
BOUNDS = {
    "quick": "2 workers x 2-4 strategies and 3 workers x 3: every single worker killed / raising at every "
             "one of its operations with all schedules of <=1 preemption, every pair of workers with every "
             "pair of operations and all failing, free switches only; results below and above the capacity; 4-120 workers, "
             "up to all of them failing, one schedule",
    "thorough": "2 preemptions, pairs with 1 preemption, 6 strategies",
}
ORACLE = ("result = best of what the surviving workers searched, value/solution/strategy of one of them, "
          "ERROR logged; MultiProcessError exactly if no worker delivered; no deadlock")
NOTE = ("Real parent and worker code under a controlled multiprocessing; operations = communication "
        "operations and starts of a strategy. A worker killed after its whole result was sent may count "
        "either way. Validated with real killed processes (mc/realmp.py).")
hp = mp.hp
TABLES = [(0.3, 0.5), (0.5, 0.3), (0.3, 0.3), (0.005, 0.3), (0.3, 0.005), (0.005, 0.004), (1.0, 0.3), (0.3, 1.0), (0.3, 0.30001), (0.99999, 1.0)]
TABLES4 = [(0.3, 0.5, 0.4, 0.2), (0.2, 0.4, 0.5, 0.3), (0.005, 0.3, 0.3, 0.005), (0.3, 1.0, 0.5, 0.6)]
TABLES3 = [(0.3, 0.5, 0.4), (0.5, 0.4, 0.3), (0.4, 0.3, 0.5), (0.005, 0.3, 0.3), (0.3, 1.0, 0.5),
           (0.5, 0.3, 0.4), (0.3, 0.4, 0.5), (0.4, 0.5, 0.3), (0.5, 0.5000001, 0.50001)]


def cases(tier):
    q = tier == "quick"
    more = 0 if q else 1
    yield from crowd_cases(q)
    for workers, tables, pre in ((2, TABLES, 1 + more), (2, TABLES4, 1 + more), (3, TABLES3, 0 + more)):
        for t, table in enumerate(tables):
            for cap in (65536, 16):
                few = q and (t >= 3 and cap == 16 or t >= 2 and len(table) > 2)
                yield {"workers": workers, "table": list(table), "cap": cap, "victims": [], "pre": 0}
                for v in range(1, workers + 1):
                    yield {"workers": workers, "table": list(table), "cap": cap, "victims": [v],
                           "pre": pre if cap == 65536 else max(0, pre - 1) if q else pre}
                if few:
                    continue
                for vs in itertools.combinations(range(1, workers + 1), 2):
                    for part in range(8):
                        yield {"workers": workers, "table": list(table), "cap": cap, "victims": list(vs),
                               "pre": 0 if q or workers > 2 else 1, "part": part}
        for table in tables[:2]:
            yield {"workers": workers, "table": list(table), "cap": 65536,
                   "victims": list(range(1, workers + 1)), "pre": 0, "kinds": ["kill"] if workers > 2 else None}


def crowd_cases(q):
    """Many workers, which of them fail: all but one or two, the first and last ones, every second one..."""
    for n in (4, 5, 8, 12, 17, 33, 65, 120):
        everyone = list(range(1, n + 1))
        sets = [everyone[:k] for k in range(1, n + 1)] + [everyone[k:] for k in range(1, n)] + [everyone[::2], everyone[1::2]]
        sets += [[w for w in everyone if w != v] for v in everyone] + [[v] for v in everyone]
        step = 1 if n < 13 or not q else n // 8
        for part in range(8 if n > 8 else 1):
            yield {"k": "crowd", "workers": n, "cap": 65536, "sets": sets[part::8 * step] if n > 8 else sets}


def crowd(case, ctx):
    n = case["workers"]
    names = [(a, b) for a in mp.CLASSES for b in mp.CLASSES if a != b] + [
        (a, b, c) for a in mp.CLASSES for b in mp.CLASSES for c in mp.CLASSES if len({a, b, c}) == 3]
    pool = [p for p in names if p != mp.INIT][:2 * n]
    mp.set_pool(pool)
    for vals in ("rising", "falling", "hill"):
        table = {st: {"rising": 0.1 + k / 1000, "falling": 0.8 - k / 1000, "hill": 0.5 - abs(k - n) / 1000}[vals]
                 for k, st in enumerate(pool)}
        for victims in case["sets"]:
            for kind, op in (("kill", 1), ("raise", 2), ("raise", 1), ("kill", 3)) if len(victims) in (1, n - 1, n) else (
                    ("kill", 1), ("raise", 2)):
                mp.TAGGED.records.clear()
                plan = {v: (kind, op) for v in victims}
                error = None
                with mp.Stub(table) as s:
                    prob = s.problem(n)
                    sim = mp.simmp.Sim(mp.ls.Choices(), 0, plan, max_ops=10**6)
                    try:
                        sim.run(lambda: prob.hypersearch(_exhaustive=False))
                    except hp.exceptions.MultiProcessError as e:
                        error = e
                    except mp.simmp.Deadlock as e:
                        raise Violation("%s | %d workers, faults %s" % (e, n, sim.fired))
                    judge(s, {"values": vals}, case, plan, sim, prob, error, table)
                ctx.state()
                ctx.trans(sim.points)
                ctx.validated()
                ctx.outcome((n, vals, len(victims), str(error), None if error else mp.outcome(prob)))


def run(case, ctx):
    if case.get("k") == "crowd":
        return crowd(case, ctx)
    pool = mp.PERMS[:len(case["table"])]
    table = dict(zip(pool, case["table"]))
    mp.set_pool(pool)
    with mp.Stub(table) as s:
        def make():
            s.ran.clear()
            return s.problem(case["workers"])

        # operations per worker, observed without faults
        ops = {}
        for sim, prob, error in mp.schedules(make, 0, ctx, capacity=case["cap"]):
            for p in sim.procs[1:]:
                ops[p.pid] = max(ops.get(p.pid, 0), p.ops)
        plans = []
        kinds = case.get("kinds") or ["kill", "raise"]
        for combo in itertools.product(*[[(v, k, o) for k in kinds for o in range(1, ops.get(v, 0) + 2)]
                                         for v in case["victims"]]):
            plans.append({v: (k, o) for v, k, o in combo})
        if len(case["victims"]) > 2:
            plans = [p for p in plans if len({o for _, o in p.values()}) < 3]
        if "part" in case:
            plans = plans[case["part"]::8]
        for plan in plans:
            for sim, prob, error in mp.schedules(make, case["pre"], ctx, faults=plan, capacity=case["cap"]):
                judge(s, table, case, plan, sim, prob, error)
                ctx.outcome((tuple(case["table"]), tuple(sorted(sim.fired.items())), str(error),
                             None if error else mp.outcome(prob)))


def judge(s, shown, case, plan, sim, prob, error, table=None):
    table = table or shown
    info = "values %s, %d workers, capacity %d, faults %s, schedule %s" % (
        shown, case["workers"], case["cap"], sim.fired, sim.trace[:60])
    ran = {}
    for who, st in s.ran:
        ran.setdefault(who, []).append(st)
    workers = [p.pid for p in sim.procs[1:]]
    survivors = [w for w in workers if w not in sim.fired]
    maybe = [w for w in workers if w in sim.fired and sim.fired[w][0] == "kill" and sim.procs[w].delivered]
    if error is not None:
        if survivors:
            raise Violation("MultiProcessError though worker %s survived | %s" % (survivors, info))
        return
    if not survivors and not maybe:
        raise Violation("all workers failed, but no MultiProcessError: %s | %s" % (mp.outcome(prob), info))
    sol, val, st = mp.outcome(prob)
    least = max([s.INIT_VALUE] + [table[x] for w in survivors for x in ran.get(w, [])]) if survivors else 0
    allowed = {x for w in survivors + maybe for x in ran.get(w, [])}
    if st == mp.INIT:
        want, v = s.initial(), s.INIT_VALUE
    elif st in allowed:
        want, v = s.solution(st), table[st]
    else:
        raise Violation("strategy %s was searched by no surviving worker | %s" % (st, info))
    if sol != want or abs(v - val) > 1e-12:
        raise Violation("strategy %s yields %s value %s, reported %s value %s | %s" % (
            st, want, v, sol, val, info))
    if val < least - 1e-12:
        raise Violation("value %s, the surviving workers found %s | %s" % (val, least, info))
    failed = [w for w in sim.fired if w not in maybe]
    if failed and not any(lv >= 40 for _, lv, _ in mp.TAGGED.records):
        raise Violation("workers %s failed and no error was logged | %s" % (failed, info))


def finish(ctx):
    mp.real_runs(ctx, "faults")

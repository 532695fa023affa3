import itertools

import env
import gen
import landscape as ls
import mp
import packspace as ps
import trace
from core import Violation

ID = "C09"
BOUNDS = {
    "quick": "abstract search: every throttle constant 1..P+2 (P=n(n-1)/2) and off, n<=6, every "
             "better/not better answer tree with <=3 improvements (n<=4), <=2 (n=5), <=1 (n=6), MAX "
             "and MIN; no-improvement counts for every n<=40 and the default constant for n in 68..76, 85, 101 "
             "and 150; one improvement by the k-th of 2500 exchanges; "
             "HyperPack problems with 4-5 items and every throttle constant; every local search of hypersearches "
             "with and without throttle in one process and by 2-3 workers, 4-5 and 72 items",
    "thorough": "one more improvement each, no-improvement counts for every n<=76",
}
ORACLE = "exact set and order of exchanges tried per node, exact number without improvement"
hp = env.hyperpack()
Toy = ls.toy(hp)
_ORDER = {}


def cases(tier):
    q = tier == "quick"
    more = 0 if q else 1
    for d in ("MAX", "MIN"):
        for n in (2, 3, 4, 5, 6):
            P = n * (n - 1) // 2
            imp = {2: 1, 3: 4, 4: 3, 5: 2, 6: 1}[n] + more
            for t in [None, "default"] + list(range(1, P + 3)):
                yield {"k": "tree", "n": n, "dir": d, "imp": imp, "t": t}
    for n in list(range(0, 41 if q else 77)) + list(range(68, 77)):
        for t in (None, "default", 1, 2, 7, 100, n * (n - 1) // 2 or 1, n * (n - 1) // 2 + 1):
            yield {"k": "flat", "n": n, "t": t}
    for n in (85, 101, 150) if q else (85, 101, 150, 220, 320):
        for t in (None, "default"):
            yield {"k": "flat", "n": n, "t": t}
    for n in (72, 101):
        for t in (None, "default"):
            for at in (1, 2, 100, 1000, 2498, 2499, 2500, 2501):
                yield {"k": "late", "n": n, "t": t, "at": at}
    for ms in itertools.chain(gen.multisets([(1, 2), (3, 1), (2, 2)], 4), gen.multisets([(1, 3), (2, 1)], 5)):
        for conts in ([(3, 3)], [(4, 4)], [(2, 3), (3, 2)]):
            yield {"k": "real", "conts": conts, "items": list(ms)}
            yield {"k": "hyper", "conts": conts, "items": list(ms)}
    for workers in (1, 2):
        for throttle in (True, False):
            yield {"k": "hypermany", "conts": [(100, 1)], "items": [(1, 1)] * 72, "workers": workers,
                   "throttle": throttle}


def limit(n, t):
    P = n * (n - 1) // 2
    if t is None:
        return P
    return min(P, 2500 if t == "default" else t)


def judge(init, init_value, tr, n, t, direction, what):
    better = (lambda a, b: a > b) if direction == "MAX" else (lambda a, b: a < b)
    err, nodes, tried = ls.replay(init, init_value, tr, better)
    lim = limit(n, t)
    if not err:
        for node, pairs in zip(nodes, tried):
            if len(set(pairs)) != len(pairs):
                err = "exchange tried twice from node %s: %s" % (node, pairs)
            elif len(pairs) > lim:
                err = "%d neighbours of %s tried, limit %d" % (len(pairs), node, lim)
            # one fixed order of the position pairs for all nodes
            elif pairs:
                known = _ORDER.setdefault(n, [])
                k = min(len(known), len(pairs))
                if known[:k] != pairs[:k]:
                    err = "order of the exchanges differs: %s and %s" % (known[:k], pairs[:k])
                elif len(pairs) > len(known):
                    _ORDER[n] = pairs
        if not err and len(tried[-1]) != lim:
            err = "%d neighbours of the last node were evaluated instead of %d" % (len(tried[-1]), lim)
    if err:
        raise Violation("%s | n=%d throttle=%s %s evaluated %s" % (err, n, t, what, tr[:40]))


def make(n, value_of, d, t):
    return Toy(n, value_of, d, None if t in (None, "default") else t)


def tree(case, ctx):
    n, d, t = case["n"], case["dir"], case["t"]
    sign = 1 if d == "MAX" else -1
    for ch in ls.Choices():
        table = {tuple(range(n)): 0}
        st = {"best": 0, "imp": 0}

        def value_of(seq):
            if seq not in table:
                c = ch.choose(2) if st["imp"] < case["imp"] else 0
                if c:
                    st["imp"] += 1
                    table[seq] = st["best"] + sign
                else:
                    table[seq] = st["best"] - sign * (len(table) % 2)
            if table[seq] * sign > st["best"] * sign:
                st["best"] = table[seq]
            return table[seq]

        s = make(n, value_of, d, t)
        s.local_search(list(range(n)), t is not None, 0, 10**12)
        judge(s.init, table[s.init], s.trace, n, t, d, d)
        ctx.state()
        ctx.trans(len(s.trace))
        ctx.validated()
        ctx.outcome([v for _, v in s.trace])


def flat(case, ctx):
    n, t = case["n"], case["t"]
    for v in (0, -1):
        s = make(n, lambda q: 0 if q == tuple(range(n)) else v, "MAX", t)
        s.local_search(list(range(n)), t is not None, 0, 10**12)
        judge(s.init, 0, s.trace, n, t, "MAX", "nothing better")
        ctx.state()
        ctx.trans(len(s.trace))
        ctx.validated()
        ctx.outcome(len(s.trace))


def late(case, ctx):
    """One improvement, by the exchange number `at`."""
    n, t = case["n"], case["t"]
    s = make(n, lambda q: 0, "MAX", t)
    s.local_search(list(range(n)), t is not None, 0, 10**12)
    target = s.trace[case["at"] - 1][0] if case["at"] <= len(s.trace) else None
    s = make(n, lambda q: 1 if q == target else 0, "MAX", t)
    s.local_search(list(range(n)), t is not None, 0, 10**12)
    judge(s.init, 0, s.trace, n, t, "MAX", "improvement at %d" % case["at"])
    ctx.state()
    ctx.trans(len(s.trace))
    ctx.validated()
    ctx.outcome(len(s.trace))


def real(case, ctx):
    base = trace.recorder(hp.HyperPack)
    n = len(case["items"])
    for order in gen.orders([tuple(i) for i in case["items"]])[:6]:
        items = gen.ids(order)
        for t in [None, "default", 1, 2, 3, n * (n - 1) // 2 - 1, n * (n - 1) // 2]:
            cls = base if t in (None, "default") else type(
                "HyperPack", (base,), {"MAX_NEIGHBORS_THROTTLE": t})
            prob = ps.make(hp, case, items, True, cls)
            prob.log = []
            prob.local_search(throttle=t is not None)
            log, prob.log = prob.log, None
            nodes = [(tuple(r.sequence), r.value) for r in log if r.kind == "node"]
            inits = [r for r in log if r.kind == "init"]
            perfect = all(len(v) and sum(s[2] * s[3] for s in v.values()) == W * L
                          for v, (W, L) in zip(prob.solution.values(), case["conts"]))
            if len(inits) != 1 or perfect:
                continue
            judge(tuple(items), inits[0].value, nodes, n, t, "MAX", "%s %s" % (case["conts"], items))
            ctx.state()
            ctx.trans(len(nodes))
            ctx.validated()
            ctx.outcome(repr(prob.solution))


def searches(case, items, t, throttle, workers, ctx):
    """Every local search of a hypersearch, in one process and by workers."""
    n = len(items)
    saved = hp.HyperPack.MAX_NEIGHBORS_THROTTLE
    pool = mp.PERMS[:3] if n < 50 else mp.PERMS[:workers]
    try:
        if t is not None:
            hp.HyperPack.MAX_NEIGHBORS_THROTTLE = t
        mp.set_pool(pool)
        with mp.Recorder() as rec:
            mp.one(lambda: ps.make(hp, case, items, False, workers_num=workers), throttle=throttle,
                   orientation=None, sorting_by=None)
    finally:
        hp.HyperPack.MAX_NEIGHBORS_THROTTLE = saved
    total = sum(W * L for W, L in case["conts"])
    ran = set()
    for pid, log in rec.logs.items():
        runs = []
        for r in log:
            if r.kind == "init":
                runs.append((r, []))
            elif r.kind == "node":
                runs[-1][1].append(r)
        for first, nodes in runs:
            if sum(s[2] * s[3] for v in first.solution.values() for s in v.values()) == total or any(
                    sum(s[2] * s[3] for v in r.solution.values() for s in v.values()) == total for r in nodes):
                return
            if not nodes:
                continue
            ran.add(first.strategy)
            judge(tuple(items), first.value, [(tuple(r.sequence), r.value) for r in nodes], n,
                  ("default" if t is None else t) if throttle else None, "MAX",
                  "hypersearch(throttle=%s) with %d workers, process %d, strategy %s, %s %s" % (
                      throttle, workers, pid, first.strategy, case["conts"], items))
            ctx.trans(len(nodes))
    if len(ran) != len(pool):
        raise Violation("neighbours tried for strategies %s of %s | hypersearch(throttle=%s) with %d workers, "
                        "%s %s" % (sorted(ran), pool, throttle, workers, case["conts"], items))
    ctx.state()
    ctx.validated()
    ctx.outcome([len(v) for v in rec.logs.values()])


def hyper(case, ctx):
    n = len(case["items"])
    items = gen.ids([tuple(i) for i in case["items"]])
    for t in (None, 1, 2, n, n * (n - 1) // 2 - 1, n * (n - 1) // 2):
        for throttle in (True, False):
            for workers in (1, 2, 3):
                searches(case, items, t, throttle, workers, ctx)


def hypermany(case, ctx):
    searches(case, gen.ids([tuple(i) for i in case["items"]]), None, case["throttle"], case["workers"], ctx)


def run(case, ctx):
    _ORDER.clear()
    globals()[case["k"]](case, ctx)

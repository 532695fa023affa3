import itertools

import env
import gen
import landscape as ls
import packspace as ps
import trace
from core import Violation

ID = "C07"
CPU_LIMIT = 400
BOUNDS = {
    "quick": "abstract search: all 4683 weak orderings of the 6 permutations of 3 elements, every "
             "better/equal/worse answer tree for n=4 with <=4 improvements and n=5 with <=2, MAX "
             "and MIN; HyperPack: every multiset of <=4 items in every order over 3 alphabets, 1-2 "
             "containers, rotation, 4 strategies, against the graph of all n! sequences; ascents of "
             "1-60 nodes with n<=12 in which every node's p-th new neighbor improves (all p), of 150-1300 with 3 p, of 4 with n=25-73; "
             "the evaluated sequences of HyperPack with 6-30 items; "
             "improvements of one unit of area in containers up to 1000x1000",
    "thorough": "n=4 <=6 improvements, n=5 <=3, three way answers; HyperPack with 5 items; ascents "
                "of 200 nodes, n<=15; containers up to 2000x1500",
}
ORACLE = ("hill climb reference on the evaluated sequences; HyperPack's result must be a local "
          "optimum reachable by strictly improving exchanges in the graph of all sequences")
NOTE = "Time, throttle and maximum stops are covered by C08, C09 and C14."
hp = env.hyperpack()
Toy = ls.toy(hp)


def cases(tier):
    q = tier == "quick"
    for d in ("MAX", "MIN"):
        for n in (1, 2):
            yield {"k": "orderings", "n": n, "dir": d, "part": 0, "parts": 1}
        for part in range(8):
            yield {"k": "orderings", "n": 3, "dir": d, "part": part, "parts": 8}
        for n, imp, kinds in ((3, 5, 3), (4, 2, 3), (4, 4, 2), (5, 2, 2)) if q else (
                (3, 5, 3), (4, 3, 3), (4, 6, 2), (5, 3, 2), (6, 2, 2)):
            for first in range(n * (n - 1) // 2):
                yield {"k": "tree", "n": n, "dir": d, "imp": imp, "kinds": kinds, "first": first}
    # long ascents: every node's p-th new neighbor improves, steps of 1, 1e-6 or alternating
    for d in ("MAX", "MIN"):
        for n in (3, 4, 5, 6, 7, 9, 12) if q else (3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15):
            for step in range(3):
                yield {"k": "long", "n": n, "dir": d, "nodes": 60 if q else 200, "step": step}
        for n in (5, 7, 9, 12):
            yield {"k": "long", "n": n, "dir": d, "nodes": 1300 if q else 5000, "step": 1, "few": 1}
        # a few improvements of long sequences
        for n in (25, 41, 55, 73) if q else (25, 41, 55, 73, 90, 110):
            yield {"k": "long", "n": n, "dir": d, "nodes": 4, "step": 1, "few": 2}
    # more items: every evaluated sequence against the climb
    for n, conts in ((6, [(4, 4)]), (8, [(5, 4), (3, 2)]), (11, [(6, 6)]), (13, [(4, 3), (4, 4), (3, 3)]), (17, [(8, 7)]),
                     (26, [(11, 10)]), (30, [(7, 7), (7, 6)])) + (() if q else ((41, [(14, 13)]), (72, [(20, 17)]), (75, [(19, 19)]))):
        for p in range(len(PATTERNS)):
            yield {"k": "climb", "n": n, "conts": conts, "pattern": p}
    # improvements of a single unit of area in large containers
    for W, L in ((7, 5), (60, 60), (400, 300), (1000, 1000)) if q else (
            (7, 5), (31, 33), (60, 60), (100, 100), (400, 300), (1000, 1000), (2000, 1500)):
        for items in ([(W, L - 1), (W - 1, 1), (W, 1)], [(W, L - 1), (W - 2, 1), (W - 1, 1), (W, 1)],
                      [(W, L - 2), (W - 1, 2), (W, 1), (W - 1, 1)]):
            yield {"k": "real", "conts": [(W, L)], "items": items, "strats": "default"}
            yield {"k": "real", "conts": [(W, L), (W, 1)], "items": items, "strats": "default"}
    alphas = [[(1, 1), (1, 2), (2, 1), (2, 2)], [(1, 3), (2, 1), (2, 2), (3, 1)], [(2, 3), (1, 2), (3, 1)]]
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for a, alpha in enumerate(alphas if n < 5 else alphas[1:]):
            for ms in gen.multisets(alpha, n):
                for conts in ([(3, 3)], [(4, 3)], [(2, 3), (3, 2)], [(3, 3), (2, 2)], [(2, 2), (2, 1), (3, 1)]):
                    yield {"k": "real", "conts": conts, "items": list(ms),
                           "strats": "few" if n < 4 and a == 1 else "default"}
    for n in (2, 3, 4):
        for ms in gen.multisets(alphas[1], n):
            for W, h, mh in ((3, 0, 0), (4, 0, 0), (3, 4, 0), (3, 6, 2), (4, 3, 1)):
                yield {"k": "strip", "strip": 1, "W": W, "height": h, "min_height": mh, "items": list(ms)}


def judge(t, result, n, direction, order_seen):
    better = (lambda a, b: a > b) if direction == "MAX" else (lambda a, b: a < b)
    err, nodes, tried = ls.replay(t.init, t.value_of(t.init), t.trace, better)
    if not err and result != nodes[-1]:
        err = "returned %s, the last improving node is %s" % (result, nodes[-1])
    if not err and set(tried[-1]) != ls.all_pairs(n):
        err = "ended at %s although the exchanges %s were not tried" % (
            nodes[-1], sorted(ls.all_pairs(n) - set(tried[-1])))
    if err:
        raise Violation("%s | %s, start %s value %s, evaluated %s" % (
            err, direction, t.init, t.value_of(t.init), t.trace))


def orderings(case, ctx):
    n, d = case["n"], case["dir"]
    perms = list(itertools.permutations(range(n)))
    for i, vals in enumerate(ls.weak_orderings(len(perms))):
        if i % case["parts"] != case["part"]:
            continue
        table = dict(zip(perms, vals))
        t = Toy(n, table.__getitem__, d)
        result = t.local_search(list(range(n)), False, 0, 10**12)
        judge(t, result, n, d, None)
        ctx.state()
        ctx.trans(len(t.trace))
        ctx.validated()
        ctx.outcome((result, len(t.trace)))


def tree(case, ctx):
    """Every sequence of answers better / worse (/ equal), improvements bounded."""
    n, d, kinds = case["n"], case["dir"], case["kinds"]
    sign = 1 if d == "MAX" else -1
    for ch in ls.Choices():
        table = {tuple(range(n)): 0.0}
        st = {"best": 0.0, "imp": 0, "k": 0}

        def value_of(seq):
            if seq not in table:
                k = st["k"]
                st["k"] += 1
                if k <= case["first"]:
                    c = 0 if k == case["first"] else 1 + (k % 2)
                elif st["imp"] < case["imp"]:
                    c = ch.choose(kinds)
                    if kinds == 2 and c == 1:
                        c += len(table) % 2
                else:
                    c = 1 + (k % 2)
                if c == 0:
                    st["imp"] += 1
                    # large and tiny improvements
                    v = st["best"] + sign * (1.0 if st["imp"] % 2 else 1e-6)
                else:
                    v = st["best"] - (sign * 0.5 if c == 1 else 0.0)
                table[seq] = v
            v = table[seq]
            if v * sign > st["best"] * sign:
                st["best"] = v
            return v

        t = Toy(n, value_of, d)
        result = t.local_search(list(range(n)), False, 0, 10**12)
        judge(t, result, n, d, None)
        ctx.state()
        ctx.trans(len(t.trace))
        ctx.validated()
        ctx.outcome(len(t.trace))


def long(case, ctx):
    n, d = case["n"], case["dir"]
    sign = 1 if d == "MAX" else -1
    pairs = n * (n - 1) // 2
    few = case.get("few")
    for nodes in sorted({4} if few == 2 else {150, 400, case["nodes"]} if few else {1, 2, 3, 5, 8, 13, 21, 34, case["nodes"]}):
        for p in sorted({0, pairs // 2, pairs - 1} if few == 2 else {0, 1, pairs // 2}) if few else range(pairs):
            table, st = {tuple(range(n)): 0.0}, {"best": 0.0, "imp": 0, "since": 0}

            def value_of(seq):
                if seq not in table:
                    if st["since"] == p and st["imp"] < nodes:
                        st["imp"] += 1
                        st["since"] = 0
                        st["best"] += sign * (1.0, 1e-6, 1e-6 if st["imp"] % 2 else 1.0)[case["step"]]
                        table[seq] = st["best"]
                    else:
                        st["since"] += 1
                        table[seq] = st["best"] - (sign * 0.5 if len(table) % 2 else 0.0)
                return table[seq]

            t = Toy(n, value_of, d)
            t.endless = 10**6 if few else None
            judge(t, t.local_search(list(range(n)), False, 0, 10**12), n, d, None)
            ctx.state()
            ctx.trans(len(t.trace))
            ctx.validated()
            ctx.outcome((p, len(t.trace)))


def real(case, ctx):
    """HyperPack's local search against the graph of all sequences."""
    items0 = [tuple(i) for i in case["items"]]
    for rot in (False, True):
        for st in gen.STRATS[case["strats"]]:
            items = gen.ids(items0)
            ids = list(items)
            sol, val, by_dims = {}, {}, {}
            fresh = ps.make(hp, case, items, rot)
            fresh.potential_points_strategy = st
            for p in itertools.permutations(ids):
                fresh.solve(sequence=list(p))
                sol[p] = trace.copy(fresh.solution)
                val[p] = fresh.calculate_obj_value()
            ctx.trans(len(sol))
            # every order of the multiset as starting sequence, ids fixed to sizes
            starts = {tuple(tuple(items[i].values()) for i in p): p for p in itertools.permutations(ids)}
            for start in starts.values():
                prob = ps.make(hp, case, {i: items[i] for i in start}, rot)
                prob.potential_points_strategy = st
                prob.local_search(throttle=False)
                got, v = trace.copy(prob.solution), prob.calculate_obj_value()
                ctx.state()
                ctx.validated()
                ctx.outcome(repr(got))
                info = "start %s containers %s items %s rotation %s strategy %s" % (
                    start, ps.containers_of(case), items, rot, st)
                if v < val[start] - 1e-9:
                    raise Violation("value %s is worse than the start's %s | %s" % (v, val[start], info))
                nbrs, pairs = {}, list(itertools.combinations(range(len(ids)), 2))
                reach, todo = {start}, [start]
                while todo:
                    p = todo.pop()
                    nbrs[p] = []
                    for i, j in pairs:
                        x = list(p)
                        x[i], x[j] = x[j], x[i]
                        x = tuple(x)
                        if val[x] > val[p]:
                            nbrs[p].append(x)
                            if x not in reach:
                                reach.add(x)
                                todo.append(x)
                ends = [p for p in reach if sol[p] == got and abs(val[p] - v) < 1e-9]
                if not ends:
                    raise Violation("result %s value %s is the construction of no sequence reachable by "
                                    "improving exchanges | %s" % (got, v, info))
                # a difference below the rounding of the sums is no improvement
                if not any(all(val[x] <= val[p] + 1e-9 for x in nbrs[p]) for p in ends):
                    p = ends[0]
                    x = max(nbrs[p], key=val.get)
                    raise Violation("ended at %s value %s although exchanging to %s gives %s | %s" % (
                        p, v, x, val[x], info))


PATTERNS = ([(3, 2), (1, 4), (2, 2)], [(2, 1), (5, 1), (3, 3), (1, 2), (2, 3)], [(1, 3), (4, 2), (2, 5), (1, 1)])


def climb(case, ctx):
    """HyperPack with many items: the evaluated sequences are those of a hill climb."""
    cls = trace.recorder(hp.HyperPack)
    pat = PATTERNS[case["pattern"]]
    items = gen.ids([pat[(k * k + k // 3) % len(pat)] for k in range(case["n"])])
    for rot in (False, True):
        prob = ps.make(hp, case, items, rot, cls)
        prob.log = []
        prob.local_search(throttle=False)
        log, prob.log = prob.log, None
        info = "%s items %s rotation %s" % (case, items, rot)
        ctx.state()
        ctx.trans(len(log))
        ctx.validated()
        ctx.outcome(repr(prob.solution))
        if not log or [r.kind for r in log] != ["init"] + ["node"] * (len(log) - 1):
            continue
        node, best, tried = tuple(items), log[0], set()
        for r in log[1:]:
            pair = ls.exchange(node, tuple(r.sequence))
            if pair is None:
                raise Violation("evaluated %s, no exchange of %s | %s" % (r.sequence, node, info))
            tried.add(pair)
            if r.value > best.value:
                best, node, tried = r, tuple(r.sequence), set()
        if prob.solution != best.solution or abs(prob.calculate_obj_value() - best.value) > 1e-12:
            raise Violation("returned %s, last improving node %s | %s" % (prob.solution, best, info))
        full = all(abs(v - 1) < 1e-9 for v in best.values.values())
        if not full and tried != ls.all_pairs(case["n"]):
            raise Violation("exchanges %s of the last node were not tried | %s" % (
                sorted(ls.all_pairs(case["n"]) - tried)[:5], info))


def strip(case, ctx):
    """Strip: hill climb predicate on the trace (heights shrink: no global graph)."""
    cls = trace.recorder(hp.HyperPack)
    n = len(case["items"])
    for order in gen.orders([tuple(i) for i in case["items"]]):
        for rot in (False, True):
            items = gen.ids(order)
            prob = ps.make(hp, case, items, rot, cls)
            prob.log = []
            prob.local_search(throttle=False)
            log, prob.log = prob.log, None
            info = "%s items %s rotation %s: %s" % (case, items, rot, log)
            ctx.state()
            ctx.trans(len(log))
            ctx.validated()
            ctx.outcome(repr(prob.solution))
            if not log or [r.kind for r in log] != ["init"] + ["node"] * (len(log) - 1):
                continue
            any_min = bool(case["min_height"])
            node, best, retained, tried = tuple(items), log[0], log[0], set()
            for r in log[1:]:
                pair = ls.exchange(node, tuple(r.sequence))
                if pair is None:
                    raise Violation("evaluated %s, no exchange of %s | %s" % (r.sequence, node, info))
                tried.add(pair)
                if r.value > best.value and (any_min or trace.placed(r.solution) == n):
                    best, node, tried = r, tuple(r.sequence), set()
            if prob.solution != best.solution or abs(prob.calculate_obj_value() - best.value) > 1e-12:
                raise Violation("returned %s, last improving node %s | %s" % (prob.solution, best, info))
            if tried != ls.all_pairs(n):
                raise Violation("exchanges %s of the last node were not tried | %s" % (
                    ls.all_pairs(n) - tried, info))


def run(case, ctx):
    globals()[case["k"]](case, ctx)

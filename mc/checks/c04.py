import itertools

import env
import gen
import histories
import model
import packspace as ps
from core import Violation

ID = "C04"
BOUNDS = {
    "quick": "every order x rotation x strategy set of the C01 solve/strip spaces, all tuples of "
             "<=3 classes on a fixed list of problems, all 720 strategies (strided) on C1-C3; "
             "problems of 9-257 items and up to 40 containers, up to 2049 items without room, containers up to 1100x1000, small problems stretched up to 257-fold; "
             "point queues compared too; the points generated by every placement of an item among every "
             "1-3 disjoint items around it, on grids up to 6x5/8x3; solve after histories of up to 2 "
             "operations",
    "thorough": "deeper C01 space, all tuples of <=3 classes on every 3-item problem, all 720 "
                "strategies on all data sets; surroundings on grids up to 6x5, 10x3, 7x7",
}
ORACLE = "lock-step reference model on rectangles (mc/model.py): placements, order, point queues"
hp = histories.hp

PROBLEMS = [
    (5, 5, [(1, 3), (2, 2), (3, 1), (1, 1), (2, 1)]),
    (6, 5, [(2, 1), (1, 4), (3, 2), (1, 2), (2, 2), (1, 1)]),
    (5, 6, [(3, 1), (1, 1), (2, 3), (1, 2), (1, 3), (2, 1)]),
    (10, 10, [(3, 2), (2, 5), (4, 1), (1, 6), (3, 3), (2, 2), (1, 1)]),
    (8, 9, [(1, 2), (3, 4), (2, 1), (2, 6), (1, 5), (4, 2), (1, 1), (1, 1)]),
]


def cases(tier):
    yield from ps.solve_cases(tier)
    yield from ps.multi_cases(tier)
    yield from ps.strip_cases(tier)
    yield from ps.large_cases(tier)
    yield from ps.many_cases(tier)
    yield from ps.unfit_cases(tier)
    yield from ps.scaled_cases(tier, "full+pairs")
    # queues of potential points, whole bounded space with one strategy
    for W, L, items, strats in gen.small_space(tier):
        yield {"k": "points", "W": W, "L": L, "items": items}
    yield from local_cases(tier)
    for i in range(len(PROBLEMS)):
        for first in gen.CLASSES:
            yield {"k": "tuples", "p": i, "first": first}
        for lo in range(0, 720, 90):
            yield {"k": "pool", "p": i, "lo": lo}
    yield from histories.cases(tier, ("solve", "seq"))
    yield from ps.bench_cases(tier, strip=True)


def oracle(prob, info):
    items = [(i, *info.items[i]) for i in info.sequence]
    conts = [(c, W, L) for c, (W, L) in info.containers.items()]
    want, _ = model.solve(conts, items, info.strategy, info.rotation,
                          info.height if info.strip else None)
    for cid, placed in want.items():
        got = [(i, *s) for i, s in prob.solution[cid].items()]
        if got != placed and {g[0]: g[1:] for g in got} != {p[0]: p[1:] for p in placed}:
            k = next((k for k, (a, b) in enumerate(zip(got, placed)) if a != b),
                     min(len(got), len(placed)))
            raise Violation(
                "container %r placement %d: implementation %s, construction %s | %s"
                % (cid, k, got[k] if k < len(got) else "stops",
                   placed[k] if k < len(placed) else "stops", info))


def points(case, ctx):
    W, L = case["W"], case["L"]
    seen = set()
    for order in gen.orders([tuple(i) for i in case["items"]]):
        items = gen.ids(order)
        for rot in (False, True):
            prob = ps.make(hp, case, items, rot)
            # only the classes that cannot lead far keep the points in their queues
            for st in ((), ("B",), ("A",), ("A", "B"), gen.DEFAULT):
                prob.potential_points_strategy = st
                prob.solve(debug=True)
                ps._note(ctx, prob, seen)
                seq = [(i, d["w"], d["l"]) for i, d in items.items()]
                placed, rem, queues = model.construct(W, L, seq, st, rot)
                got = [(i, *s) for i, s in prob.solution[gen.CONT_IDS[0]].items()]
                if {g[0]: g[1:] for g in got} != {p[0]: p[1:] for p in placed}:
                    raise Violation("implementation %s, construction %s | %s strategy %s rotation %s"
                                    % (got, placed, items, st, rot))
                if sum(p[3] * p[4] for p in placed) == W * L:
                    continue
                have = getattr(prob, "_current_potential_points", None)
                if have is None:
                    continue
                have = {c: [tuple(p) for p in have[c]] for c in gen.CLASSES}
                if have != queues:
                    raise Violation("potential points %s, defined by the rules %s | %s in %dx%d "
                                    "strategy %s rotation %s" % (have, queues, items, W, L, st, rot))


def rects(W, L, dims=None):
    return [(x, y, w, l) for w in range(1, W + 1) for l in range(1, L + 1)
            if dims is None or (w, l) in dims
            for x in range(W - w + 1) for y in range(L - l + 1)]


def local_cases(tier):
    small, tiny = [(1, 1), (1, 2), (2, 1), (2, 2)], [(1, 1)]
    spaces = [(4, 4, 1, None), (5, 5, 1, None), (6, 5, 1, None), (4, 4, 2, None), (3, 8, 2, small[:3]), (8, 3, 2, small[:3]),
              (5, 5, 2, small[:3]), (3, 6, 3, tiny), (6, 3, 3, tiny), (4, 4, 3, small[:3])]
    if tier != "quick":
        spaces += [(5, 5, 2, small), (5, 5, 2, None), (6, 5, 2, small + [(1, 3), (3, 1)]), (4, 4, 3, small), (5, 5, 3, small[:3]),
                   (10, 3, 2, small), (3, 10, 2, small), (4, 6, 3, tiny), (6, 4, 3, tiny), (7, 7, 2, tiny)]
    for W, L, n, dims in spaces:
        step = 1 if n == 1 else max(1, len(rects(W, L, dims)) // 16)
        for lo in range(0, len(rects(W, L, dims)), step if n > 1 else 10**6):
            yield {"k": "local", "W": W, "L": L, "n": n, "dims": dims, "lo": lo,
                   "hi": lo + (step if n > 1 else 10**6)}


class Given(hp.HyperPack):
    """Construction with given first points."""

    given = None
    used = False

    def _get_initial_potential_points(self):
        points = super()._get_initial_potential_points()
        if self.given:
            points["A"].extend(self.given[1:])
        return points

    def _get_initial_point(self, potential_points, **kwargs):
        self.used = True
        return self.given[0], "A"


def local(case, ctx):
    """The points an item generates in every surrounding: all disjoint placements of n items,
    followed by every possible placement of another one."""
    W, L, n = case["W"], case["L"], case["n"]
    dims = None if case["dims"] is None else [tuple(d) for d in case["dims"]]
    around, every = rects(W, L, dims), rects(W, L)
    items = {"%d-%d-%d" % (w, l, k): {"w": w, "l": l} for w in range(1, W + 1) for l in range(1, L + 1)
             for k in range(n + 1)}
    prob = Given(containers={"c": {"W": W, "L": L}}, items=items, settings={"rotation": False})
    prob.potential_points_strategy = ("A",)
    disjoint = {r: {s for s in every if not (r[0] < s[0] + s[2] and s[0] < r[0] + r[2]
                                             and r[1] < s[1] + s[3] and s[1] < r[1] + r[3])} for r in around}
    for i in range(case["lo"], min(case["hi"], len(around))):
        todo = [(around[i],)]
        for _ in range(n - 1):
            todo = [c + (r,) for c in todo for r in around if r > c[-1] and all(r in disjoint[x] for x in c)]
        for c in todo:
            for last in set.intersection(*(disjoint[x] for x in c)):
                placed = c + (last,)
                seq = ["%d-%d-%d" % (w, l, k) for k, (x, y, w, l) in enumerate(placed)]
                prob.given = [(x, y) for x, y, w, l in placed]
                prob.used = False
                prob.solve(sequence=seq, debug=True)
                have = getattr(prob, "_current_potential_points", None)
                if not prob.used or have is None:
                    return  # there is no such hook
                ctx.state()
                ctx.trans(len(placed))
                if sum(w * l for x, y, w, l in placed) == W * L:
                    continue
                _, rem, queues = model.construct(
                    W, L, [(s, p[2], p[3]) for s, p in zip(seq, placed)], ("A",), False,
                    point=prob.given[0], pending=[("A", p) for p in prob.given[1:]])
                have = {k: [tuple(p) for p in have[k]] for k in gen.CLASSES}
                ctx.validated()
                ctx.outcome(tuple(len(queues[k]) for k in gen.CLASSES))
                if have != queues:
                    k = next(k for k in gen.CLASSES if have[k] != queues[k])
                    raise Violation("%s points %s, defined by the rules %s | items (x, y, w, l) placed in %dx%d: %s"
                                    % (k, have[k], queues[k], W, L, placed))


def run(case, ctx):
    if case["k"] == "local":
        return local(case, ctx)
    if case["k"] == "points":
        return points(case, ctx)
    if case["k"] in ("tuples", "pool"):
        W, L, dims = PROBLEMS[case["p"]]
        if case["k"] == "tuples":
            f = case["first"]
            strats = [s for s in gen.STRATS["all3"] if s and s[0] == f]
        else:
            strats = gen.POOL720[case["lo"]:case["lo"] + 90]
            strats = strats + [s[:6] + gen.STRIP_SUFFIX for s in strats]
        seen = set()
        orders = [dims, dims[::-1], sorted(dims), dims[1:] + dims[:1], dims[3:] + dims[:3]]
        for order in orders:
            items = gen.ids(order)
            for rot in (False, True):
                prob = ps.make(hp, {"W": W, "L": L}, items, rot)
                for st in strats:
                    prob.potential_points_strategy = st
                    prob.solve()
                    ps._note(ctx, prob, seen)
                    oracle(prob, ps.Info({gen.CONT_IDS[0]: (W, L)}, ps.flat(items), rot, st, "solve"))
        return
    ps.explore(hp, case, ctx, oracle)

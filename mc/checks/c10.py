import itertools

import gen
import mp
import packspace as ps
import trace
from core import Violation

ID = "C10"
PIN = True
BOUNDS = {
    "quick": "every multiset of <=3 items (4 in part) x 1-2 containers x 10 pools of 1-3 strategies in every "
             "order x instance strategies x sorting x orientation x rotation, single process and 2-3 "
             "workers; the exhaustive pool on 18 problems; strategies "
             "that differ by one unit of containers up to 1000x500; pools of 20, 100 and 720 tabled strategies with the best "
          "one at every (7th) position in 5 surroundings, 1-90 workers",
    "thorough": "4-5 items, all pools of 1-3 out of 6 strategies; exhaustive pool on every multiset of <=4 items",
}
ORACLE = ("maximum over the initial construction and an independent local search per strategy on fresh "
          "instances; snapshots of definition, strategy and settings")
NOTE = "Trusts local_search of a fresh instance (decided by C07)."
hp = mp.hp

ST = [("A", "B", "C", "D", "A_", "B_") + gen.SUFFIX, ("B_", "A_", "D", "C", "B", "A") + gen.SUFFIX,
      ("B", "D", "A", "C"), ("A_", "E"), ("B",), ("C", "A", "B_", "D", "A__")]


def pools(q):
    base = [(0,), (1,), (4,), (0, 1), (1, 0), (4, 2), (2, 4), (3, 4, 5), (5, 4, 3), (4, 4, 1), (4, 0, 3)]
    if q:
        return base
    return base + [p for k in (1, 2, 3) for p in itertools.permutations(range(6), k)]


def cases(tier):
    q = tier == "quick"
    alpha = [(1, 2), (2, 1), (3, 1), (2, 2)]
    for n in (1, 2, 3):
        for ms in gen.multisets(alpha, n):
            for conts in ([(3, 3)], [(4, 2)], [(2, 3), (3, 2)], [(2, 2), (2, 1), (3, 1)]):
                for pool in pools(q):
                    yield {"conts": conts, "items": list(ms), "pool": list(pool),
                           "workers": [1] if n == 1 else [1, 2] if len(pool) < 3 else [1, 3]}
    for n in (4,) if q else (4, 5):
        for ms in gen.multisets([(1, 3), (2, 1), (3, 2)] if q else alpha, n):
            for conts in ([(4, 3)], [(3, 4), (3, 2)]):
                for pool in ((4, 1), (3, 4, 5), (5, 0)):
                    yield {"conts": conts, "items": list(ms), "pool": list(pool), "workers": [1]}
    # strategies whose values differ by a single unit of a large container
    for W, L in ((400, 400), (1000, 500)) + (() if q else ((1000, 1000),)):
        for items in ([(W - 1, L - 1), (1, 1)], [(W - 1, L - 1), (1, 1), (W, 1)], [(W - 1, L), (1, L - 2), (1, 1)],
                      [(W, L - 1), (2, 1), (1, 1)]):
            for pool in (("", "B"), ("B", ""), ("", "A"), ("A", "B"), ("B", "A"), ("", "B", "A"), ("AB", "B"), ("", "BA")):
                yield {"conts": [(W, L)], "items": items, "fine": pool, "workers": [1, 2]}
    full = [(conts, ms) for n in (1, 2, 3) for conts in ([(4, 4)], [(3, 4), (3, 2)])
            for ms in gen.multisets([(1, 3), (2, 1), (3, 2)], n)]
    for conts, ms in full[::2] if q else full:
        yield {"conts": conts, "items": list(ms), "pool": [], "workers": [1]}
    # great pools: the best strategy at every position, far from any other improvement
    for n in (20, 100, 720) + (() if q else (721, 1500, 5040)):
        for at in range(0, n, 1 if n < 720 else 7 if q else 3):
            yield {"stub": n, "at": at, "workers": [1] if at % 5 else [1, 2, 8, 90]}
    if not q:
        for ms in gen.multisets([(1, 3), (2, 1), (3, 2), (2, 2)], 4):
            yield {"conts": [(4, 4)], "items": list(ms), "pool": [], "workers": [1]}


def value_of(case, items, rot, st, local):
    p = ps.make(hp, case, items, rot)
    p.potential_points_strategy = st
    if local:
        p.local_search()
    else:
        p.solve()
    return p.calculate_obj_value(), trace.copy(p.solution)


def fine(case, ctx):
    pool = [tuple(s) for s in case["fine"]]
    mp.set_pool(pool)
    for own in ((), ("A",), ("B",)):
        for workers in case["workers"]:
            one(case, ctx, pool, gen.ids([tuple(i) for i in case["items"]]), False, None, None, own, workers)


BIG = list(itertools.permutations(gen.FREE6)) + list(itertools.permutations(gen.CLASSES[:8], 5))


def stub(case, ctx):
    """Local searches by table."""
    n, at = case["stub"], case["at"]
    pool = BIG[:n]
    mp.set_pool(pool)
    for shape in ("worse", "equal", "rising", "falling", "second"):
        table = {}
        for k, st in enumerate(pool):
            table[st] = {"worse": 0.005, "equal": 0.01, "rising": 0.02 + 0.0001 * k, "falling": 0.6 - 0.0001 * k,
                         "second": 0.5 if k == (at + n // 2) % n else 0.004}[shape]
        table[pool[at]] = 0.9
        for workers in case["workers"]:
            info = "%s %s %d workers" % (case, shape, workers)
            with mp.Stub(table) as s:
                if workers == 1:
                    p = s.problem(1, max_time_in_seconds=10**9)
                    p.hypersearch(orientation=None, sorting_by=None, _exhaustive=False)
                else:
                    sim, p = mp.one(lambda: s.problem(workers, max_time_in_seconds=10**9), orientation=None, sorting_by=None)
                want = (s.solution(pool[at]), 0.9, pool[at])
            got = mp.outcome(p)
            ctx.state()
            ctx.trans(n)
            ctx.validated()
            ctx.outcome(got)
            if got[0] != want[0] or abs(got[1] - 0.9) > 1e-9 or got[2] != want[2]:
                raise Violation("outcome %s, the best strategy gives %s | %s" % (got, want, info))
            if p.potential_points_strategy != mp.INIT:
                raise Violation("strategy is now %s | %s" % (p.potential_points_strategy, info))


def run(case, ctx):
    if case.get("stub"):
        return stub(case, ctx)
    if case.get("fine"):
        return fine(case, ctx)
    pool = [ST[i] for i in case["pool"]]
    if pool:
        mp.set_pool(pool)
    quick_modes = [(None, None), ("wide", ("area", True)), ("long", ("perimeter", False))]
    order0 = tuple(gen.orders([tuple(i) for i in case["items"]])[0])
    for order in gen.orders([tuple(i) for i in case["items"]])[:3 if pool else 1]:
        raw = gen.ids(order)
        for rot in (True, False):
            for orient, sort in quick_modes if pool else quick_modes[1:2]:
                for own in ((ST[0], ST[4], ("D",)) if pool else (ST[0],)):
                    for workers in case["workers"]:
                        one(case, ctx, pool, raw, rot, orient, sort, own, workers)
                    if len(order) < 3 or own is not ST[0] or order != order0:
                        continue
                    for prior in PRIOR:
                        one(case, ctx, pool, raw, rot, orient, sort, own, case["workers"][0], prior)


# what was done on the instance before: the result must not depend on it
PRIOR = {
    "solved": lambda p: p.solve(),
    "searched": lambda p: p.local_search(),
    "solved in part": lambda p: p.solve(sequence=list(p.items)[:1]),
    "hypersearched": lambda p: p.hypersearch(orientation=None, sorting_by=None, _exhaustive=False),
    "searched, sorted, turned": lambda p: (p.local_search(), p.sort_items(sorting_by=("perimeter", False)),
                                           p.orient_items("long")),
    "solved in the order of areas": lambda p: p.solve(sequence=sorted(p.items, key=lambda i: -p.items[i]["w"] * p.items[i]["l"])),
}


def one(case, ctx, pool, raw, rot, orient, sort, own, workers, prior=None):
    def make():
        p = ps.make(hp, case, raw, rot, workers_num=workers)
        p.potential_points_strategy = own
        if prior:
            PRIOR[prior](p)
        return p

    before = make()
    settings = dict(before.settings)
    # what the requested sorting and orientation make of the items
    before.sort_items(sorting_by=sort)
    before.orient_items(orientation=orient)
    items = before.items.deepcopy()
    conts = before.containers.deepcopy()
    if workers == 1:
        prob = make()
        prob.hypersearch(orientation=orient, sorting_by=sort, _exhaustive=not pool)
    else:
        sim, prob = mp.one(make, orientation=orient, sorting_by=sort)
    got, val = trace.copy(prob.solution), prob.calculate_obj_value()
    info = "%s order %s rotation %s orientation %s sorting %s strategy %s workers %s before %s" % (
        case, raw, rot, orient, sort, own, workers, prior)
    strategies = pool or [p + gen.SUFFIX for p in itertools.permutations(gen.FREE6)]
    best = value_of(case, items, rot, own, False)[0]
    which = own
    for st in strategies:
        v, _ = value_of(case, items, rot, st, True)
        if v > best:
            best, which = v, st
    ctx.state()
    ctx.trans(len(strategies) + 1)
    ctx.validated()
    ctx.outcome((repr(got), which))
    if abs(val - best) > 1e-9:
        raise Violation("value %s, best over all strategies %s (%s) | %s" % (val, best, which, info))
    st = tuple(prob.best_strategy)
    if st not in [tuple(x) for x in strategies] + [tuple(own)]:
        raise Violation("best strategy %s is none of those searched | %s" % (st, info))
    a, b = value_of(case, items, rot, st, False), value_of(case, items, rot, st, True)
    if abs(a[0] - val) > 1e-9 and abs(b[0] - val) > 1e-9:
        raise Violation("best strategy %s gives %s (local search %s), reported value %s | %s" % (
            st, a[0], b[0], val, info))
    cov = sum(s[2] * s[3] for v in got.values() for s in v.values())
    if cov and not prob.obj_val_per_container or list(prob.solution) != list(conts):
        raise Violation("solution %s values %s | %s" % (got, prob.obj_val_per_container, info))
    exact = {c: sum(s[2] * s[3] for s in got[c].values()) / (d["W"] * d["L"]) for c, d in conts.items()}
    for c, x in exact.items():
        if abs(x - prob.obj_val_per_container[c]) > 1e-9:
            raise Violation("container %s has value %s, its items %s | %s" % (
                c, prob.obj_val_per_container[c], x, info))
    after = {"items": prob.items.deepcopy(), "order": list(prob.items), "containers": prob.containers.deepcopy(),
             "strategy": prob.potential_points_strategy, "settings": dict(prob.settings)}
    want = {"items": items, "order": list(items), "containers": conts, "strategy": own, "settings": settings}
    for k in want:
        if after[k] != want[k]:
            raise Violation("%s changed from %s to %s | %s" % (k, want[k], after[k], info))

import itertools

import gen
import mp
import packspace as ps
import trace
from core import Violation

ID = "C16"
CPU_LIMIT = 400
PIN = True
BOUNDS = {
    "quick": "strips of width 1-4, every multiset of <=3 items (4 in part), every height 1..7 and 10xW, minimum "
             "heights; every history of <=3 out of {solve, solve sequence, local_search, hypersearch, 2 and 3 "
             "workers, set height, set minimum, reset}; strips of every power of two to 2^100 and its neighbours",
    "thorough": "histories of 4, more items",
}
ORACLE = "height reached by the placements against the height read before the call"
NOTE = "Workers run one after another here; their schedules are explored by C12."
hp = mp.hp
POOL = [("A", "B", "C", "D", "A_", "B_") + gen.STRIP_SUFFIX, ("B", "C"), ("E", "A", "B_")]


def cases(tier):
    q = tier == "quick"
    small = gen.dims(2) + [(1, 3), (3, 1), (2, 5)]
    for n, alpha, widths in ((1, gen.dims(3, 12), (1, 2, 3)), (2, small, (2, 3)),
                             (3, [(1, 2), (2, 1), (3, 1), (2, 2)], (3, 4)),
                             (4, [(1, 2), (3, 1), (2, 2)], (3,) if q else (3, 4, 5))):
        for ms in gen.multisets(alpha, n):
            for W in widths:
                yield {"k": "limit", "strip": 1, "W": W, "items": list(ms)}
    for n in list(range(5, 21)) + [30, 49, 50, 51, 64, 99, 100, 101] + ([] if q else [150, 200, 250]):
        for a in (1, 2, 5):
            yield {"k": "many", "n": n, "W": 4 if n < 30 else 9, "a": a}
    for i in range(0, len(gen.SCALES), 5):
        yield {"k": "scale", "i": i}
    probs = [(3, [(1, 2), (2, 1), (2, 2)]), (2, [(1, 3), (2, 1), (1, 1)]), (1, [(1, 6), (1, 5)]), (4, [(3, 2), (2, 2), (2, 1), (1, 3)])]
    for W, items in probs:
        for first in OPS:
            yield {"k": "history", "strip": 1, "W": W, "items": items, "first": first, "depth": 3 if q else 4}


METHODS = ("solve", "seq", "local", "hyper", "mp2", "mp3")
OPS = METHODS + ("h3", "h7", "m1", "m2", "reset")


def call(p, m, case):
    """Runs a method; returns the height in force at the call."""
    if m == "solve":
        p.solve()
    elif m == "seq":
        p.solve(sequence=list(p.items)[::-1])
    elif m == "local":
        p.local_search()
    elif m == "hyper":
        p.settings = dict(p.settings, workers_num=1)
        p.hypersearch(orientation=None, sorting_by=None, _exhaustive=False)
    elif m in ("mp2", "mp3"):
        p.settings = dict(p.settings, workers_num=int(m[2]))
        sim = mp.simmp.Sim(mp.ls.Choices(), 0)
        before = (p.container_height, p.container_min_height)
        sim.run(lambda: p.hypersearch(orientation=None, sorting_by=None, _exhaustive=False))
        if (p.container_height, p.container_min_height) != before:
            raise Violation("multi process hypersearch changed the heights %s to %s | %s" % (
                before, (p.container_height, p.container_min_height), case))
    else:
        return False
    return True


def check(p, m, h, ctx, info):
    reached = trace.top(p.solution)
    ctx.trans()
    ctx.outcome((m, reached, trace.placed(p.solution)))
    if reached > h:
        raise Violation("%s: items reach %s, the container height is %s: %s | %s" % (
            m, reached, h, p.solution, info))


def limit(case, ctx):
    mp.set_pool(POOL)
    W = case["W"]
    for order in gen.orders([tuple(i) for i in case["items"]])[:2]:
        items = gen.ids(order)
        for rot in (False, True):
            for h, mh in [(0, 0), (0, 3)] + [(h, 0) for h in range(1, 8)] + [(4, 4), (5, 2), (10 * W + 3, 0), (30 * W, 0)]:
                for m in METHODS:
                    c = dict(case, height=h, min_height=mh)
                    p = ps.make(hp, c, items, rot)
                    height = p.container_height
                    info = "width %d items %s rotation %s height %s min %s" % (W, items, rot, h, mh)
                    if not h and height != 10 * W:
                        raise Violation("initial height %s for width %s" % (height, W))
                    call(p, m, info)
                    ctx.state()
                    ctx.validated()
                    check(p, m, height, ctx, info)
                    p.reset_container_height()
                    if (p.container_height, p.container_min_height) != (10 * W, None):
                        raise Violation("reset gives height %s minimum %s | %s" % (
                            p.container_height, p.container_min_height, info))


def many(case, ctx):
    """Many items, little height."""
    mp.set_pool(POOL[1:])
    n, W = case["n"], case["W"]
    dims = [ALPHA[(k * case["a"] + k // 3) % len(ALPHA)] for k in range(n)]
    area = sum(w * l for w, l in dims)
    for h, mh in [(h, 0) for h in (1, 2, 3, 7, max(1, area // W // 2), area // W + 1)] + [(0, 0), (5, 4)]:
        for m in METHODS:
            c = dict(case, strip=1, height=h, min_height=mh)
            p = ps.make(hp, c, gen.ids(dims), True, max_time_in_seconds=100000)
            p.potential_points_strategy = POOL[0]
            height = p.container_height
            info = "width %d, %d items %s.. height %s min %s" % (W, n, dims[:6], h, mh)
            if m in ("solve", "seq"):
                call(p, m, info)
            elif n > 20 and m != "mp2" or n > 60:
                continue
            else:
                call(p, m, info)
            ctx.state()
            ctx.validated()
            check(p, m, height, ctx, info)


def scale(case, ctx):
    """Strips of every size: heights only and a single construction."""
    for W in gen.SCALES[case["i"]:case["i"] + 5]:
        for cls in (hp.HyperPack, hp.PointGenPack):
            for sizes in ([(1, 1)], [(W, 10 * W)], [(W, 10 * W), (1, 1)], [(W, 10 * W + 1)], [(W, 5 * W)] * 3):
                p = cls(items=gen.ids(sizes), strip_pack_width=W)
                info = "%s width %d items %s" % (cls.__name__, W, sizes)
                for before in (None, 1, 10 * W - 1, 10 * W + 1, 100 * W, "min"):
                    if before == "min":
                        p.container_min_height = W
                    elif before:
                        p.container_height = before
                        h = p.container_height
                        if h != before:
                            raise Violation("height %s after it was set to %s | %s" % (h, before, info))
                        if W <= 600:
                            p.solve()
                            check(p, "solve", h, ctx, info)
                        p.reset_container_height()
                    else:
                        h = p.container_height
                        if h != 10 * W:
                            raise Violation("initial height %s for width %s | %s" % (h, W, info))
                        if W <= 600:
                            p.solve()
                            check(p, "solve", h, ctx, info)
                        p.reset_container_height()
                        continue
                    p.reset_container_height()
                    if (p.container_height, p.container_min_height) != (10 * W, None):
                        raise Violation("reset gives height %s minimum %s after %s | %s" % (
                            p.container_height, p.container_min_height, before, info))
                ctx.state()
                ctx.validated()


ALPHA = [(1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (1, 3)]


def history(case, ctx):
    mp.set_pool(POOL)
    items = gen.ids([tuple(i) for i in case["items"]])
    W = case["W"]
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        ops = (case["first"],) + rest
        if ops[-1] not in METHODS and ops[-1] != "reset":
            continue
        p = ps.make(hp, case, items, True)
        p.potential_points_strategy = POOL[0]
        for k, op in enumerate(ops):
            h, mh = p.container_height, p.container_min_height
            info = "width %d items %s after %s" % (W, items, ops[:k + 1])
            if op[0] in "hm" and op[1:].isdigit():
                v = int(op[1:])
                try:
                    if op[0] == "h":
                        p.container_height = v
                    else:
                        p.container_min_height = v
                except hp.exceptions.ContainersError:
                    pass
            elif op == "reset":
                p.reset_container_height()
                if (p.container_height, p.container_min_height) != (10 * W, None):
                    raise Violation("reset gives height %s minimum %s | %s" % (
                        p.container_height, p.container_min_height, info))
            else:
                call(p, op, info)
                check(p, op, h, ctx, info)
                if p.container_height > h:
                    raise Violation("the container height grew from %s to %s | %s" % (h, p.container_height, info))
                if p.container_min_height != mh:
                    raise Violation("the minimum height changed from %s to %s | %s" % (
                        mh, p.container_min_height, info))
        ctx.state()
        ctx.validated()


def run(case, ctx):
    globals()[case["k"]](case, ctx)

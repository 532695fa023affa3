import ast
import itertools
import logging
import re

import env
import gen
import packspace as ps
import trace
from core import Violation

ID = "C22"
BOUNDS = {
    "quick": "every multiset of <=3 items (4 in part) incl. items that fit nowhere, 1-3 containers up to 5x4 "
             "and strips with heights and minimum heights, rotation, solve under several strategies and "
             "sequences (also partial ones), local_search, hypersearch; every history of <=3 operations "
             "that set or reset the solution; HyperPack and PointGenPack; 1-1009 items, up to 60 containers, "
             "containers up to 10**6 units; logger levels up to none",
    "thorough": "4-5 items",
}
ORACLE = "all figures of the report recomputed from the placements with exact arithmetic"
NOTE = "Numbers are compared to the precision of the report."
hp = env.hyperpack(quiet=False)


def cases(tier):
    q = tier == "quick"
    alpha = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (6, 6), (1, 9)]
    spaces = [{"conts": [(3, 3)]}, {"conts": [(5, 4)]}, {"conts": [(2, 2), (1, 2)]}, {"conts": [(1, 1), (3, 2), (2, 2)]},
              {"conts": [(1, 1)]}]
    strips = [{"strip": 1, "W": W, "height": h, "min_height": m} for W in (1, 2, 3)
              for h, m in ((0, 0), (1, 0), (3, 0), (0, 4), (5, 2), (3, 3))]
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for ms in gen.multisets(alpha if n < 4 else [(1, 2), (2, 2), (3, 1), (1, 9)], n):
            for s in spaces + strips:
                yield dict(s, k="all", items=list(ms))
    for n in tuple(range(5, 41, 5)) + (60, 99, 100, 101, 150, 257, 500, 700, 999, 1000, 1009) + (() if q else (2000, 3000)):
        for fit in (0, 1, n // 3, n - 1, n):
            yield {"k": "many", "n": n, "fit": fit}
    for m in (4, 5, 8, 11, 12, 25, 60) + (() if q else (120,)):
        for n in (1, m // 2, m, m + 3):
            yield {"k": "many", "n": n, "fit": min(n, m), "conts": m}
    for W, L in ((1000, 999), (2, 10 ** 5), (10 ** 5, 3), (1234, 567)):
        yield {"k": "many", "n": 4, "fit": 4, "W": W, "L": L}
        yield {"k": "many", "n": 4, "fit": 2, "W": W, "L": L}
    for s in spaces[1:3] + [strips[6], strips[9], strips[16]]:
        for first in OPS:
            yield dict(s, k="history", items=[(1, 2), (2, 1), (6, 6)], first=first, depth=3 if q else 4)


def report(p, info):
    env.CAPTURE.clear()
    sol, val = trace.copy(p.solution), dict(getattr(p, "obj_val_per_container", {}))
    out = p.log_solution()
    rec = list(env.CAPTURE.records)
    if p.solution != sol or dict(getattr(p, "obj_val_per_container", {})) != val:
        raise Violation("log_solution changes the solution | %s" % info)
    if any(lv >= logging.ERROR for lv, _ in rec):
        raise Violation("log_solution logs an error %s | %s" % (rec, info))
    if not sol:
        if out is not None or not any(lv == logging.WARNING for lv, _ in rec):
            raise Violation("without solution returns %r and logs %s | %s" % (out, rec, info))
        return
    if not isinstance(out, str):
        raise Violation("returns %r | %s" % (out, info))
    if not any(out in m or m == out for lv, m in rec):
        raise Violation("the report is not logged: %s | %s" % (rec, info))
    if any(lv == logging.WARNING for lv, _ in rec):
        raise Violation("warns although there is a solution: %s | %s" % (rec, info))
    logger = hp.loggers.hyperLogger
    level = logger.level
    for higher in (logging.WARNING, logging.CRITICAL + 1):
        logger.setLevel(higher)
        try:
            again = p.log_solution()
        finally:
            logger.setLevel(level)
        if again != out:
            raise Violation("returns %r with the logger's level %d, %r before | %s" % (again, higher, out, info))
    n = len(p.items)
    placed = {i for v in sol.values() for i in v}
    m = re.search(r"stored\s*:\s*([\d.]+)%", out)
    if not m or abs(float(m.group(1)) - 100 * len(placed) / n) > 0.00006:
        raise Violation("stored %s, are %d of %d | %s\n%s" % (m and m.group(1), len(placed), n, info, out))
    m = re.search(r"Remaining items\s*:\s*(\[.*\])", out)
    if not m or sorted(ast.literal_eval(m.group(1))) != sorted(set(p.items) - placed):
        raise Violation("remaining %s, are %s | %s\n%s" % (
            m and m.group(1), sorted(set(p.items) - placed), info, out))
    parts = re.split(r"^Container\s*:", out, flags=re.M)[1:]
    if len(parts) != len(p.containers):
        raise Violation("%d containers in the report, are %d | %s\n%s" % (len(parts), len(p.containers), info, out))
    strip = p.container_height is not None
    for part, (cid, d) in zip(parts, p.containers.items()):
        m = re.match(r"\s*(.*?)\s+(\d+)\s*x\s*(\d+)\s*$", part, re.M)
        top = max([s[1] + s[3] for s in sol[cid].values()] or [0])
        L = max(top, p.container_min_height or 0) if strip else d["L"]
        if not m or (m.group(1), int(m.group(2)), int(m.group(3))) != (cid, d["W"], L):
            raise Violation("container %s %sx%s in the report, is %s %sx%s | %s\n%s" % (
                (m.groups() if m else (None,) * 3) + (cid, d["W"], L, info, out)))
        area = sum(s[2] * s[3] for s in sol[cid].values())
        u = re.search(r"util%\]\s*:\s*([\d.]+)%", part)
        want = 100 * area / (d["W"] * L) if L else 0
        if not u or abs(float(u.group(1)) - want) > 0.00006:
            raise Violation("utilization %s, is %s | %s\n%s" % (u and u.group(1), want, info, out))
        h = re.search(r"max height\]\s*:\s*(\d+)", part)
        if strip and (not h or int(h.group(1)) != top):
            raise Violation("strip height %s, is %s | %s\n%s" % (h and h.group(1), top, info, out))
    return out


OPS = ("solve", "partial", "local", "hyper", "new", "dim", "del", "add", "sort", "settings", "height", "reset", "min")


def act(p, op):
    if op == "solve":
        p.solve()
    elif op == "partial":
        p.solve(sequence=list(p.items)[:-1] or list(p.items))
    elif op == "local":
        p.local_search()
    elif op == "hyper":
        p.hypersearch(orientation="long", sorting_by=("perimeter", True), _exhaustive=False)
    elif op == "new":
        p.items = {"n'1": {"w": 1, "l": 1}, 'n"2': {"w": 2, "l": 9}, "n 3": {"w": 2, "l": 1}}
    elif op == "dim":
        p.items[list(p.items)[0]]["w"] = 3
    elif op == "del":
        if len(p.items) > 1:
            del p.items[list(p.items)[0]]
    elif op == "add":
        p.items["new"] = {"w": 1, "l": 3}
    elif op == "sort":
        p.sort_items()
    elif op == "settings":
        p.settings = {"rotation": False}
    elif op in ("height", "reset", "min"):
        if p.container_height is None:
            return
        if op == "height":
            p.container_height = max(2, p.container_min_height or 0)
        elif op == "min":
            p.container_min_height = max(1, min(4, p.container_height))
        else:
            p.reset_container_height()


def run(case, ctx):
    globals()["every" if case["k"] == "all" else case["k"]](case, ctx)


def many(case, ctx):
    """Reports of many items, containers and of large containers."""
    n, m = case["n"], case.get("conts", 1)
    for ids in (gen.ITEM_IDS, None):
        if ids is not None and n > len(ids):
            continue
        name = (lambda k: ids[k]) if ids else (lambda k: "%d-%s" % (n - k, "x" * (k % 7)))
        for kind in ("bin", "strip"):
            if kind == "strip" and m > 1:
                continue
            W, L = case.get("W", 1 if m > 1 else case["fit"] or 1), case.get("L", 1)
            # `fit` items of one unit fill the row, the others are too wide and too long
            big = max(W, L * 10, W * 10) + 1
            items = {name(k): {"w": 1, "l": 1} if (k * case["fit"]) % n < case["fit"] else {"w": big, "l": big}
                     for k in range(n)}
            conts = {"c %d" % (m - j): {"W": W, "L": L + j % 3} for j in range(m)}
            for cls in (hp.HyperPack, hp.PointGenPack):
                if kind == "strip":
                    if W > 2000:
                        continue
                    p = cls(strip_pack_width=W, items=items)
                    p.container_height = L
                else:
                    p = cls(containers=conts, items=items)
                for seq in (None, list(items)[::2], list(items)[::-1]):
                    p.solve(sequence=seq)
                    ctx.state()
                    ctx.trans()
                    ctx.validated()
                    ctx.outcome(report(p, "%s %s %s sequence %s" % (case, kind, cls.__name__, seq and seq[:5])))


def every(case, ctx):
    ps.set_pool(hp, ps.POOLS[2])
    for order in gen.orders([tuple(i) for i in case["items"]])[:6]:
        items = gen.ids(order)
        for rot in (False, True):
            for cls in (hp.HyperPack, hp.PointGenPack):
                p = ps.make(hp, case, items, rot, cls)
                report(p, "unsolved")
                for st in (gen.DEFAULT, (), ("B", "A")):
                    p.potential_points_strategy = st
                    for op in ("solve", "partial") + (("local", "hyper") if cls is hp.HyperPack and st else ()):
                        if cls is hp.PointGenPack and op in ("local", "hyper"):
                            continue
                        act(p, op)
                        ctx.state()
                        ctx.trans()
                        ctx.validated()
                        ctx.outcome(report(p, "%s items %s rotation %s %s after %s strategy %s" % (
                            case, items, rot, cls.__name__, op, st)))


def history(case, ctx):
    ps.set_pool(hp, ps.POOLS[2])
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        p = ps.make(hp, case, gen.ids([tuple(i) for i in case["items"]]), True)
        for k, op in enumerate((case["first"],) + rest):
            act(p, op)
            ctx.trans()
            ctx.outcome(report(p, "%s after %s" % (case, ((case["first"],) + rest)[:k + 1])))
        ctx.state()
        ctx.validated()

import copy
import importlib
import itertools
import pkgutil

import env
import packspace as ps
from core import Violation

ID = "C26"
CPU_LIMIT = 400
BOUNDS = {
    "quick": "all shipped data sets (every module of the datasets package, 7 with 3 item sets each) completely; all "
             "histories of <=2 of 12 solving and manipulating operations on each",
    "thorough": "histories of 3 operations",
}
ORACLE = "areas and dimensions recomputed, snapshots of the data compared after every operation"
NOTE = ("exhaustive: the property is about finitely many data. Searches on the data are ended by the virtual clock. "
        "Refilling operations that only rebind the given dictionary are covered by C27.")
hp = env.hyperpack()
PACKAGE = "hyperpack.benchmarks.datasets.hopper_and_turton_2000"
NAMES = ("C1", "C2", "C3", "C4", "C5", "C6", "C7")
SETS = ("items_a", "items_b", "items_c")
OPS = ("solve", "local", "hyper", "wide", "long", "area", "perimeter", "ratio", "change", "delete", "figure", "assign")


def load(name):
    return importlib.import_module(PACKAGE + "." + name)


def modules():
    pkg = importlib.import_module(PACKAGE)
    return sorted(m.name for m in pkgutil.iter_modules(pkg.__path__))


def cases(tier):
    depth = 2 if tier == "quick" else 3
    for name in modules():
        yield {"k": "data", "name": name}
        for s in SETS:
            for strip in (0, 1):
                for op in OPS:
                    # the biggest sets take long in combination
                    d = depth if name in NAMES[:5] else 2 if depth == 3 else 1
                    yield {"k": "history", "name": name, "set": s, "strip": strip, "first": op, "depth": d}


def plain(d):
    return type(d) is dict and all(type(v) is dict for v in d.values())


def data(case, ctx):
    name = case["name"]
    m = load(name)
    if not set(NAMES) <= set(modules()):
        raise Violation("data sets missing: %s" % modules())
    if getattr(importlib.import_module("hyperpack.benchmarks.datasets"), "hopper_and_turton_2000") is None:
        raise Violation("not reachable")
    sets = [k for k in vars(m) if k.startswith("items_")]
    if sorted(sets) != list(SETS):
        raise Violation("%s has item sets %s" % (name, sets))
    if not plain(m.containers) or len(m.containers) != 1:
        raise Violation("%s: containers %s" % (name, m.containers))
    (cid, c), = m.containers.items()
    if set(c) != {"W", "L"} or any(type(v) is not int or v < 1 for v in c.values()):
        raise Violation("%s: container %s" % (name, c))
    for s in SETS:
        items = getattr(m, s)
        if not plain(items):
            raise Violation("%s.%s: no plain dictionaries" % (name, s))
        for k, i in items.items():
            if type(k) is not str or set(i) != {"w", "l"} or any(type(v) is not int or v < 1 for v in i.values()):
                raise Violation("%s.%s: item %s %s" % (name, s, k, i))
            if not (i["w"] <= c["W"] and i["l"] <= c["L"]):
                if not (i["l"] <= c["W"] and i["w"] <= c["L"]):
                    raise Violation("%s.%s: item %s %s does not fit into %s" % (name, s, k, i, c))
        area = sum(i["w"] * i["l"] for i in items.values())
        if area != c["W"] * c["L"]:
            raise Violation("%s.%s: items have area %d, container %d" % (name, s, area, c["W"] * c["L"]))
        for kw in ({"containers": m.containers}, {"strip_pack_width": c["W"]}):
            for cls in (hp.HyperPack, hp.PointGenPack):
                p = cls(items=items, **kw)
                if ps.flat(p.items) != ps.flat(items):
                    raise Violation("%s.%s: problem has other items" % (name, s))
        ctx.state()
        ctx.trans(len(items))
        ctx.validated()
        ctx.outcome((name, s))


def operation(p, op, m, items, strip):
    env.CLOCK.start(on_read=lambda c: setattr(c, "now", c.now + 20))
    try:
        if op == "solve":
            p.solve()
        elif op == "local":
            p.local_search()
        elif op == "hyper":
            p.hypersearch(_exhaustive=False)
        elif op in ("wide", "long"):
            p.orient_items(op)
        elif op == "ratio":
            p.sort_items(("longest_side_ratio", True))
        elif op in ("area", "perimeter"):
            p.sort_items((op, True))
        elif op == "change":
            k = next(iter(p.items))
            p.items[k]["w"] = 1
            p.items[k] = {"w": 2, "l": 2}
            p.items.update({"new": {"w": 1, "l": 1}})
        elif op == "delete":
            del p.items[next(iter(p.items))]
        elif op == "figure":
            p.log_solution()
        elif op == "assign":
            p.items = items
            if not strip:
                p.containers = m.containers
    finally:
        env.CLOCK.stop()


def history(case, ctx):
    m = load(case["name"])
    items = getattr(m, case["set"])
    before = {k: copy.deepcopy(v) for k, v in vars(m).items() if isinstance(v, dict) and not k.startswith("__")}
    orders = {k: (list(v), [list(x) for x in v.values()]) for k, v in before.items()}
    W = next(iter(m.containers.values()))["W"]
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        kw = {"strip_pack_width": W} if case["strip"] else {"containers": m.containers}
        p = hp.HyperPack(items=items, settings={"max_time_in_seconds": 45, "workers_num": 1}, **kw)
        seq = (case["first"],) + rest
        for op in seq:
            operation(p, op, m, items, case["strip"])
            ctx.trans()
            for k, v in before.items():
                now = getattr(m, k)
                if now != v or (list(now), [list(x) for x in now.values()]) != orders[k] or not plain(now):
                    for kk, vv in before.items():
                        setattr(m, kk, copy.deepcopy(vv))
                    raise Violation("%s.%s was changed by %s (%s)" % (
                        case["name"], k, seq, "strip" if case["strip"] else "bin"))
        ctx.state()
        ctx.validated()
        ctx.outcome((case["name"], case["set"], seq))


def run(case, ctx):
    globals()[case["k"]](case, ctx)

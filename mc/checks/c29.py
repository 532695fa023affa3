import copy
import itertools

import env
import gen
import packspace as ps
import structs
import trace
from checks import c18, c20
from core import Violation

ID = "C29"
BOUNDS = {
    "quick": "the C01 single container, strip (with height limits) and 2-3 container spaces, every order x rotation x "
             "4 or 17 strategies, also explicit and partial sequences; 9-2049 items; data sets C1-C3 under strategies of the pool; "
             "every history of <=2 out of ~85 operations on items, containers, strip items and ~90 on strips; "
             "constructors, settings and strategies with valid and invalid values",
    "thorough": "the deeper C01 space, histories of 3, all data sets",
}
ORACLE = "both classes in lock step: same results, reports, refusals (class) and states"
NOTE = "settings of the scope: rotation and figure. After every history both solve and report."
hp = env.hyperpack()
LOW, FULL = hp.PointGenPack, hp.HyperPack


def cases(tier):
    q = tier == "quick"
    for c in ps.solve_cases(tier):
        yield dict(c, k="problem", strats="some" if c["strats"] in ("wide", "all3", "some") else c["strats"])
    for c in ps.strip_cases(tier):
        yield dict(c, k="problem", min_height=c["height"] % 3)
    for c in ps.multi_cases(tier):
        yield dict(c, k="problem", strats="few" if len(c["items"]) < 3 else "default")
    for c in ps.bench_cases(tier, strip=True):
        yield c
    for c in list(ps.many_cases(tier)) + list(ps.unfit_cases(tier)):
        yield dict(c, k="large")
    depth = 2 if q else 3
    for where in ("items", "containers", "strip"):
        for i in range(len(structs.alphabet("containers" if where == "containers" else "items"))):
            yield {"k": "structure", "where": where, "first": i, "depth": depth}
    for W in (1, 2):
        for i in range(len(c18.operations(W, False))):
            yield {"k": "heights", "W": W, "first": i, "depth": depth}
    for i in range(len(SETTINGS)):
        yield {"k": "settings", "i": i}
    for kind in ("bin", "strip"):
        yield {"k": "strategies", "kind": kind}
        for size in (1, 2) if q else (1, 2, 3):
            for i in range(len(gen.CLASSES) + len(c20.WRONG)):
                yield {"k": "tuples", "kind": kind, "size": size, "i": i}
    for i in range(len(CONTS)):
        yield {"k": "construct", "i": i}


def outcome(fn):
    try:
        return None, fn()
    except Exception as e:
        return type(e).__name__, str(e)


def state(p):
    vals = getattr(p, "obj_val_per_container", {})
    return {"items": pairs(structs.plain(p.items)), "containers": pairs(structs.plain(p.containers)),
            "solution": pairs(trace.copy(p.solution)), "values": pairs(dict(vals)),
            "strategy": p.potential_points_strategy, "settings": pairs(p.settings),
            "heights": (p.container_height, p.container_min_height)}


def pairs(d):
    return [(k, pairs(v) if isinstance(v, dict) else v) for k, v in d.items()] if isinstance(d, dict) else d


def lockstep(a, b, fn, info):
    """The same operation on both; True if accepted."""
    ra, rb = outcome(lambda: fn(a)), outcome(lambda: fn(b))
    if ra[0] != rb[0] or ra[0] is None and ra[1] != rb[1]:
        raise Violation("reduced class: %s, full class: %s | %s" % (show(ra), show(rb), info))
    same(a, b, info)
    return ra[0] is None


def show(r):
    return "%s %s" % (r[0] or "returns", str(r[1])[:500])


def same(a, b, info):
    sa, sb = state(a), state(b)
    for k in sa:
        if sa[k] != sb[k]:
            raise Violation("%s of the reduced class %s, of the full class %s | %s" % (k, sa[k], sb[k], info))


def finale(a, b, info):
    if not lockstep(a, b, lambda p: p.solve(), info):
        raise Violation("solve fails | %s" % (info,))
    lockstep(a, b, lambda p: p.log_solution(), info)


def both(case, items, rot):
    out = []
    for cls in (LOW, FULL):
        kw = {"items": items, "settings": {"rotation": rot}}
        if case.get("strip"):
            p = cls(strip_pack_width=case["W"], **kw)
            if case.get("height"):
                p.container_height = case["height"]
            if case.get("min_height") and case["min_height"] <= p.container_height:
                p.container_min_height = case["min_height"]
        else:
            p = cls(containers=ps.containers_of(case), **kw)
        out.append(p)
    return out


def problem(case, ctx):
    for order in gen.orders([tuple(i) for i in case["items"]]):
        items = gen.ids(order)
        for rot in (True, False):
            a, b = both(case, items, rot)
            same(a, b, case)
            for st in gen.STRATS[case["strats"]]:
                info = "%s %s rotation %s strategy %s" % (case, order, rot, st)
                a.potential_points_strategy = b.potential_points_strategy = st
                for p in (a, b):
                    p.solve()
                if a.solution != b.solution or a.obj_val_per_container != b.obj_val_per_container:
                    same(a, b, info)
                ctx.state()
                ctx.trans()
                ctx.validated()
            finale(a, b, info)
            ids = list(items)
            for s in (ids[::-1], ids[1:] + ids[:1], ids[:-1]):
                lockstep(a, b, lambda p: p.solve(sequence=list(s)), "%s sequence %s" % (info, s))
                lockstep(a, b, lambda p: p.log_solution(), info)
                ctx.trans()
            ctx.outcome(repr(a.solution))


def large(case, ctx):
    """Many items in the given order."""
    items = gen.ids([tuple(i) for i in case["items"]])
    ids = list(items)
    for rot in (True, False):
        a, b = both(case, items, rot)
        same(a, b, "%d items" % len(ids))
        info = "%s, %d items %s.. rotation %s" % (case.get("conts", case.get("W")), len(ids), case["items"][:5], rot)
        finale(a, b, info)
        for s in (ids[::-1], ids[:-1], ids[1::2]):
            lockstep(a, b, lambda p: p.solve(sequence=list(s)), "%s sequence of %d" % (info, len(s)))
            ctx.trans()
        finale(a, b, info + " again")
        ctx.state()
        ctx.validated()
        ctx.outcome(repr(a.solution))


def bench(case, ctx):
    mod = getattr(hp.benchmarks.datasets.hopper_and_turton_2000, case["name"])
    items = getattr(mod, case["set"])
    W = list(mod.containers.values())[0]["W"]
    for rot in (True, False):
        kw = {"items": items, "settings": {"rotation": rot}}
        a, b = [cls(strip_pack_width=W, **kw) if case.get("strip") else cls(mod.containers, **kw) for cls in (LOW, FULL)]
        for st in gen.POOL720[case["lo"]:case["hi"]:case["step"] * 3]:
            a.potential_points_strategy = b.potential_points_strategy = st
            finale(a, b, "%s strategy %s" % (case, st))
            ctx.state()
            ctx.trans()
            ctx.validated()


START = {"items": {"a": {"w": 1, "l": 2}, "b": {"w": 2, "l": 1}},
         "containers": {"a": {"W": 3, "L": 2}, "b": {"W": 2, "L": 2}}}


def pair(where):
    if where == "strip":
        return [c(items=copy.deepcopy(START["items"]), strip_pack_width=3) for c in (LOW, FULL)]
    return [c(items=copy.deepcopy(START["items"]), containers=copy.deepcopy(START["containers"])) for c in (LOW, FULL)]


def structure(case, ctx):
    attr = "containers" if case["where"] == "containers" else "items"
    ops = structs.alphabet(attr)
    for rest in itertools.product(ops, repeat=case["depth"] - 1):
        seq = [ops[case["first"]]] + list(rest)
        a, b = pair(case["where"])
        for p in (a, b):
            p.solve()
        for i, op in enumerate(seq):
            lockstep(a, b, lambda p: structs.apply(op, p, attr), "%s after %s" % (case["where"], seq[:i + 1]))
            if i % 2 == 0:
                lockstep(a, b, lambda p: p.log_solution(), seq[:i + 1])
            ctx.trans()
        finale(a, b, "%s after %s" % (case["where"], seq))
        ctx.state()
        ctx.validated()
        ctx.outcome(repr(a.solution))


def heights(case, ctx):
    W = case["W"]
    ops = [o for o in c18.operations(W, False) if o[0] != "local" and o[1:] != [10**6]]
    if case["first"] >= len(ops):
        return
    for rest in itertools.product(ops, repeat=case["depth"] - 1):
        seq = [ops[case["first"]]] + list(rest)
        a, b = [c(items=structs.plain(c18.ITEMS), strip_pack_width=W) for c in (LOW, FULL)]
        for i, op in enumerate(seq):
            def do(p):
                if op[0] == "c":
                    structs.apply(op[1:], p, "containers")
                elif op[0] == "h":
                    p.container_height = op[1]
                elif op[0] == "m":
                    p.container_min_height = op[1]
                elif op[0] == "delh":
                    del p.container_height
                elif op[0] == "delm":
                    del p.container_min_height
                elif op[0] == "reset":
                    p.reset_container_height()
                else:
                    p.solve()
            lockstep(a, b, do, "strip of width %d after %s" % (W, seq[:i + 1]))
            ctx.trans()
        finale(a, b, "strip of width %d after %s" % (W, seq))
        ctx.state()
        ctx.validated()
        ctx.outcome((seq, repr(a.solution)))


SETTINGS = [{}, {"rotation": True}, {"rotation": False}, {"rotation": 0}, {"rotation": 1}, {"rotation": "False"}, {"rotation": []},
            None, [], "x", 5, (), {"figure": {}}, {"figure": 1}, {"figure": {"show": True}}, {"figure": {"show": 1}},
            {"figure": {"export": {"type": "html"}}}, {"figure": {"export": {"type": "html", "path": "/"}}},
            {"figure": {"export": {"type": "image", "path": "/", "format": "bmp"}}, "rotation": False},
            {"figure": {"export": {"type": "image", "path": "/", "format": "png", "width": 0}}},
            {"figure": {"export": {"type": "image", "path": "/", "format": "png", "height": 3}}},
            {"figure": {"export": {"type": "html", "path": "/", "file_name": "a b"}}}]


def settings(case, ctx):
    s = SETTINGS[case["i"]]
    for t, how, where in itertools.product(SETTINGS + [N], range(4), ("items", "strip")):
        info = "settings %s, then %s, way %d, %s" % (t, s, how, where)
        kw = {"items": {"a": {"w": 1, "l": 3}, "b": {"w": 2, "l": 1}}}
        kw.update({"strip_pack_width": 2} if where == "strip" else {"containers": {"c": {"W": 3, "L": 2}}})
        made = []
        for c in (LOW, FULL):
            made.append(outcome(lambda: c(**kw) if t is N else c(settings=copy.deepcopy(t), **kw)))
        if made[0][0] != made[1][0]:
            raise Violation("constructed: %s and %s | %s" % (made[0], made[1], info))
        ctx.state()
        ctx.trans()
        ctx.validated()
        if made[0][0] is not None:
            continue
        a, b = made[0][1], made[1][1]

        def do(p):
            if how == 0:
                p.settings = copy.deepcopy(s)
            elif how == 1 and isinstance(s, dict):
                p.settings.update(copy.deepcopy(s))
                p.validate_settings()
            elif how == 2 and isinstance(s, dict):
                p.settings.update(copy.deepcopy(s))
            else:
                p.validate_settings()
                del p.settings
        lockstep(a, b, do, info)
        finale(a, b, info)
        ctx.outcome((info, repr(a.solution)))


N = "<none>"


def offer(a, b, v, ctx):
    lockstep(a, b, lambda p: setattr(p, "potential_points_strategy", v), "strategy %r" % (v,))
    ctx.state()
    ctx.trans()
    ctx.validated()


def kinds(kind):
    return pair("strip" if kind == "strip" else "items")


def strategies(case, ctx):
    a, b = kinds(case["kind"])
    for v in c20.non_tuples():
        if not hasattr(v, "__next__"):
            offer(a, b, v, ctx)
    for base in gen.FULL + gen.ROTATIONS:
        offer(a, b, base, ctx)
        finale(a, b, base)
        for pos in range(len(base)):
            for w in list(gen.CLASSES) + c20.WRONG:
                offer(a, b, base[:pos] + (w,) + base[pos + 1:], ctx)
        lockstep(a, b, lambda p: delattr(p, "potential_points_strategy"), "del")
        finale(a, b, base)


def tuples(case, ctx):
    a, b = kinds(case["kind"])
    for v in c20.values(None, case["size"], (list(gen.CLASSES) + c20.WRONG)[case["i"]]):
        offer(a, b, v, ctx)
    finale(a, b, case)


CONTS = [{"a": {"W": 3, "L": 2}}, None, {}, [], "x", {1: {"W": 1, "L": 1}}, {"a": None}, {"a": {}}, {"a": {"W": 1}},
         {"a": {"W": 1, "L": 0}}, {"a": {"W": 1, "l": 1}}, {"a": {"W": 1, "L": 1}, None: {"W": 1, "L": 1}},
         {"a": {"W": 1.5, "L": 1}}, {"a": {"W": 1, "L": 1}, "b": [1, 1]}, N]
ITEMS = [{"a": {"w": 3, "l": 2}}, None, {}, [], "x", {1: {"w": 1, "l": 1}}, {"a": None}, {"a": {}}, {"a": {"w": 1}},
         {"a": {"w": 1, "l": 0}}, {"a": {"w": 1, "L": 1}}, {"a": {"w": 1, "l": 1}, None: {"w": 1, "l": 1}},
         {"a": {"w": 1, "l": "1"}}, {"a": {"w": 1, "l": 1}, "b": 1}, N]
WIDTHS = [N, 1, 5, 0, -1, 1.5, "3", [3], True, None]


def construct(case, ctx):
    for it, w in itertools.product(ITEMS, WIDTHS):
        kw = {k: copy.deepcopy(v) for k, v in (("containers", CONTS[case["i"]]), ("items", it), ("strip_pack_width", w))
              if v != N}
        made = [outcome(lambda: c(**kw)) for c in (LOW, FULL)]
        if made[0][0] != made[1][0]:
            raise Violation("constructed: %s and %s | %s" % (made[0], made[1], kw))
        if made[0][0] is None:
            same(made[0][1], made[1][1], kw)
            finale(made[0][1], made[1][1], kw)
        ctx.state()
        ctx.trans()
        ctx.validated()
        ctx.outcome((kw, made[0][0]))


def run(case, ctx):
    globals()[case["k"]](case, ctx)

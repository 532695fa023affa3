import itertools
from fractions import Fraction

import env
import gen
import structs
import trace
from core import Violation

ID = "C21"
BOUNDS = {
    "quick": "every multiset of <=4 items over 9 sizes (5 in part) in every order, with string ids in and out of "
             "alphabetical order, every criterion and direction and the defaults, orientation, rotation, solved or not, bin "
             "and strip; every sequence of <=3 sort/orient/solve operations on 8 problems; items of up to 3x10^7 whose criteria nearly agree; "
             "16-1001 items",
    "thorough": "5 items, sequences of 4",
}
ORACLE = "exact criteria on the items before and after; multiset and identity of items; reset of the solution"
NOTE = "The order of items with equal criterion is left open."
hp = env.hyperpack()
BY = ("area", "perimeter", "longest_side_ratio")
UNKNOWN = ["", "Area", "width", None, 5, ("area",), "longest_side", "area "]
CRIT = {"area": lambda w, l: w * l, "perimeter": lambda w, l: 2 * w + 2 * l,
        "longest_side_ratio": lambda w, l: Fraction(max(w, l), min(w, l))}
IDS = (["a", "b", "c", "d", "e"], ["z", "b", "10", "9", "A"])


def cases(tier):
    q = tier == "quick"
    alpha = gen.dims(3) + [(1, 5), (4, 2)]
    for n in (1, 2, 3, 4, 5):
        a = alpha if n < 4 else [(1, 2), (2, 1), (3, 1), (2, 2), (1, 4)] if n == 4 else [(1, 2), (2, 1), (3, 3), (1, 4)]
        if n == 5 and q:
            a = a[:3]
        for ms in gen.multisets(a, n):
            for strip in (0, 1):
                yield {"k": "all", "items": list(ms), "strip": strip}
    # great sizes whose criteria nearly agree
    for big in (100, 1000, 30011, 10**7):
        a = [(big, big + 1), (big + 2, big), (big + 1, big + 1), (big - 1, big + 2), (big + 3, big), (3 * big + 1, big)]
        for n in (2, 3):
            for ms in itertools.combinations(a, n):
                yield {"k": "all", "items": list(ms), "strip": 0, "solve": 0}
    for n in (16, 17, 50, 51, 100, 101, 128, 200, 256, 257, 500, 501, 600, 1000, 1001) + (() if q else (2000, 4097, 10001)):
        for a in (1, 7):
            yield {"k": "many", "n": n, "a": a, "strip": n % 2}
    for items in ([(1, 2), (3, 1), (2, 2)], [(2, 1), (1, 2)], [(5, 1), (1, 4), (2, 3), (3, 3)], [(1, 1)]):
        for strip in (0, 1):
            for i in range(len(OPS)):
                yield {"k": "history", "items": items, "strip": strip, "first": i, "depth": 3 if q else 4}


OPS = [("sort", (b, r)) for b in BY for r in (True, False)] + [("sort", None), ("sort", ("zz", True)), ("sort", "default"), ("orient", "default")] + \
      [("orient", o) for o in ("wide", "long", None, "tall", "")] + [("rot", False), ("rot", True), ("solve", None),
                                                                     ("set", None), ("key", False), ("validate", None)]


def make(items, strip, rot):
    s = {"rotation": rot}
    if strip:
        return hp.HyperPack(items=items, settings=s, strip_pack_width=4)
    return hp.HyperPack(items=items, settings=s, containers={"c": {"W": 4, "L": 4}})


def flat(p):
    return [(k, d["w"], d["l"]) for k, d in structs.plain(p.items).items()]


def step(p, op, arg, rot, info):
    """Performs a sort or an orientation and judges it."""
    default = arg == "default"
    if default:
        arg = ("area", True) if op == "sort" else "wide"
    before, sol, val = flat(p), trace.copy(p.solution), dict(getattr(p, "obj_val_per_container", {}))
    got = None
    try:
        if op == "sort":
            p.sort_items(**({} if default else {"sorting_by": arg}))
        else:
            p.orient_items(**({} if default else {"orientation": arg}))
    except Exception as e:
        got = e
    after = flat(p)
    unknown = op == "sort" and arg is not None and (not isinstance(arg[0], str) or arg[0] not in BY)
    if unknown != isinstance(got, NotImplementedError) or not unknown and got is not None:
        raise Violation("%s(%r) gives %r | %s" % (op, arg, got, info))
    if sorted(x[0] for x in after) != sorted(x[0] for x in before):
        raise Violation("%s(%r) turns the ids %s into %s | %s" % (op, arg, before, after, info))
    want = dict((k, (w, l)) for k, w, l in before)
    if op == "orient" and rot and arg in ("wide", "long"):
        want = {k: (max(d), min(d)) if arg == "wide" else (min(d), max(d)) for k, d in want.items()}
    if {k: (w, l) for k, w, l in after} != want:
        raise Violation("%s(%r) turns %s into %s | %s" % (op, arg, before, after, info))
    if op == "sort" and arg is not None and not unknown:
        vals = [CRIT[arg[0]](w, l) for _, w, l in after]
        if vals != sorted(vals, reverse=arg[1]):
            raise Violation("sort %r gives %s | %s" % (arg, after, info))
    elif [x[0] for x in after] != [x[0] for x in before]:
        raise Violation("%s(%r) reorders %s to %s | %s" % (op, arg, before, after, info))
    now = dict(getattr(p, "obj_val_per_container", {}))
    idle = unknown or arg is None or op == "orient" and (not rot or arg not in ("wide", "long"))
    if after != before and (p.solution or now):
        raise Violation("%s(%r) changes %s to %s, but keeps the solution %s | %s" % (
            op, arg, before, after, p.solution, info))
    if (idle or p.solution) and (p.solution != sol or now != val):
        raise Violation("%s(%r) does nothing, but changes the solution %s to %s | %s" % (
            op, arg, sol, p.solution, info))
    p.items["probe"] = {"w": 1, "l": 1}      # still the instance's structure
    del p.items["probe"]


def run(case, ctx):
    if case["k"] == "history":
        return history(case, ctx)
    if case["k"] == "many":
        return many(case, ctx)
    for order in gen.orders([tuple(i) for i in case["items"]]):
        for ids in IDS:
            items = {ids[k]: {"w": w, "l": l} for k, (w, l) in enumerate(order)}
            for rot in (True, False):
                for solved in (True, False)[1 - case.get("solve", 1):]:
                    acts = [("sort", (b, r)) for b in BY for r in (True, False)] + [
                        ("orient", o) for o in ("wide", "long", None)] + [("sort", "default"), ("orient", "default")]
                    if order == gen.orders([tuple(i) for i in case["items"]])[0]:
                        acts += [("sort", None)] + [("sort", (u, True)) for u in UNKNOWN] + [
                            ("orient", o) for o in ("tall", "", 3, "Wide", True)]
                    for op, arg in acts:
                        p = make(items, case["strip"], rot)
                        if solved:
                            p.solve()
                        step(p, op, arg, rot, "items %s rotation %s solved %s strip %s" % (
                            items, rot, solved, case["strip"]))
                        ctx.state()
                        ctx.trans()
                        ctx.validated()
                        ctx.outcome((arg, flat(p)))


def many(case, ctx):
    n = case["n"]
    # sizes without any order, with and without repetition
    items = gen.ids([(1 + (k * 37 * case["a"]) % (n if case["a"] > 1 else 23), 1 + k * 101 % 53) for k in range(n)])
    for op, arg in [("sort", (b, r)) for b in BY for r in (True, False)] + [
            ("orient", o) for o in ("wide", "long", None)] + [("sort", None), ("sort", "default"), ("orient", "default")]:
        for rot in (True, False)[:1 if op == "sort" else 2]:
            p = make(items, case["strip"], rot)
            step(p, op, arg, rot, "%d items rotation %s strip %s" % (n, rot, case["strip"]))
            # and once more on the result
            step(p, op, arg, rot, "%d items rotation %s strip %s, twice" % (n, rot, case["strip"]))
            ctx.state()
            ctx.trans(2)
            ctx.validated()


def history(case, ctx):
    items = {IDS[1][k]: {"w": w, "l": l} for k, (w, l) in enumerate(case["items"])}
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        seq = (OPS[case["first"]],) + rest
        p = make(items, case["strip"], True)
        p.solve()
        rot = pending = True
        for k, (op, arg) in enumerate(seq):
            info = "items %s after %s" % (items, seq[:k + 1])
            if op in ("sort", "orient"):
                step(p, op, arg, rot, info)
                p.solve()
            elif op == "rot":
                rot = pending = arg
                p.settings = {"rotation": arg}
            elif op == "key":
                # not in force before it is validated
                pending = arg
                p.settings["rotation"] = arg
            elif op == "validate":
                rot = pending
                p.validate_settings()
            elif op == "solve":
                p.solve()
            else:
                p.items["z"]["l"] = 6
            ctx.trans()
        ctx.state()
        ctx.validated()
        ctx.outcome(flat(p))

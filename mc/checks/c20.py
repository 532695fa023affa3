import itertools

import env
import gen
import model
import trace
from core import Violation

ID = "C20"
BOUNDS = {
    "quick": "every tuple of <=3 elements over the 10 classes and 16 wrong elements, every permutation of the "
             "full strategy's neighbourhood with each position corrupted, 30 non tuples; every history of <=2 "
             "out of 60 operations and of 3 out of 24 (set valid, set invalid, delete, solve, local_search)",
    "thorough": "tuples of <=4 elements, histories of 3 out of 60",
}
ORACLE = ("acceptance = distinct existing class names in a tuple; solutions after each history from the "
          "reference construction (mc/model.py) under the strategy accepted last")
hp = env.hyperpack()
X = hp.exceptions
WRONG = ["O", "G", "", "a", "A___", "A,B", "AB", " A", "A'", 1, None, 0, ("A",), ["A"], True, 1.5]
PROBS = [({"c": (5, 4)}, [(2, 1), (1, 3), (3, 2), (1, 1), (2, 2)]), ({"c": (4, 4), "d": (3, 3)}, [(3, 2), (1, 2), (2, 3), (2, 2)])]


def non_tuples():
    d = gen.DEFAULT
    return [None, "", "A", "AB", "ABCDE", [], ["A"], list(d), set(), {"A", "B"}, frozenset(d), {}, {"A": 1},
            dict.fromkeys(d), 0, 1, 1.5, True, False, iter(d), (x for x in d), range(3), b"AB", bytearray(b"A"),
            object(), str, Exception(), ["A", "B", "C"], dict.fromkeys(d).keys(), lambda: d]


class Sub(tuple):
    pass


def ok(v):
    return isinstance(v, tuple) and all(isinstance(x, str) and x in gen.CLASSES for x in v) and len(set(v)) == len(v)


def values(tier, size, first):
    alpha = list(gen.CLASSES) + WRONG
    for rest in itertools.product(alpha, repeat=size - 1):
        yield (first,) + rest


def operations(small):
    ops = [["set", v] for v in [("A",), ("B", "A"), gen.DEFAULT, ("C", "D", "A_"), (), gen.DEFAULT[::-1]]]
    ops += [["set", v] for v in [["A", "B"], "AB", ("A", "A"), ("A", "O"), ("A", 1), None, ("B", "C", "B"), ("X",)]]
    ops += [["del"], ["solve"], ["local"], ["items"], ["validate"], ["set", gen.FULL[2]], ["set", ("E",)],
            ["set", {"A"}], ["set", ("A", None)], ["seq"]]
    if not small:
        ops += [["set", f] for f in gen.FULL[3:]] + [["set", s] for s in gen.SINGLES[2:]]
        ops += [["set", x] for x in (gen.DEFAULT + ("A",), gen.DEFAULT[:-1] + ("G",), ("",), ("A", "B", "a"),
                                     (("A",),), 5, ("A_", "A__", "A_"), [], {}, ("B__", "B_", "B", "B__"))]
    return ops


def cases(tier):
    q = tier == "quick"
    for kind in ("HyperPack", "PointGenPack", "strip"):
        yield {"k": "kinds", "kind": kind}
        for size in (1, 2, 3) if q else (1, 2, 3, 4):
            for i in range(len(gen.CLASSES) + len(WRONG)):
                if size == 4 and kind != "HyperPack":
                    continue
                yield {"k": "tuples", "kind": kind, "size": size, "i": i}
        n, m = len(operations(False)), len(operations(True))
        for i in range(n):
            yield {"k": "history", "kind": kind, "small": 0, "first": [i], "depth": 2}
        for i in range(m):
            for j in range(m):
                yield {"k": "history", "kind": kind, "small": 1, "first": [i, j], "depth": 3}
        if not q:
            for i, j in itertools.product(range(n), repeat=2):
                yield {"k": "history", "kind": kind, "small": 0, "first": [i, j], "depth": 3}


def make(kind, which=0):
    conts, dims = PROBS[which]
    if kind == "strip":
        return hp.HyperPack(items=gen.ids(dims), strip_pack_width=4)
    return getattr(hp, kind)(items=gen.ids(dims), containers={c: {"W": w, "L": l} for c, (w, l) in conts.items()})


def offer(p, v, info):
    before = p.potential_points_strategy
    got = None
    try:
        p.potential_points_strategy = v
    except Exception as e:
        got = e
    good = ok(v)
    if good and got is not None or not good and not isinstance(got, X.PotentialPointsError):
        raise Violation("%r is %s, must be %s | %s" % (
            v, "accepted" if got is None else "refused with %r" % got,
            "accepted" if good else "refused with PotentialPointsError", info))
    want = v if good else before
    now = p.potential_points_strategy
    if now != want or type(now) is not tuple and not isinstance(v, Sub):
        raise Violation("strategy is %r, must be %r | %s" % (now, want, info))


def kinds(case, ctx):
    p = make(case["kind"])
    for v in non_tuples():
        offer(p, v, case)
        ctx.trans()
    for base in gen.FULL + gen.ROTATIONS:
        offer(p, base, case)
        for pos in range(len(base) + 1):
            for w in list(gen.CLASSES) + WRONG:
                offer(p, base[:pos] + (w,) + base[pos + 1:], case)
                offer(p, base[:pos] + (w,) + base[pos:], case)
                ctx.trans(2)
    for k in range(len(gen.DEFAULT) + 1):
        for c in itertools.combinations(gen.DEFAULT, k):
            offer(p, c, case)
            offer(p, c[::-1], case)
            offer(p, c + c[:1], case)
            ctx.trans(3)
    ctx.state()
    ctx.validated()
    ctx.outcome(case)


def tuples(case, ctx):
    first = (list(gen.CLASSES) + WRONG)[case["i"]]
    p = make(case["kind"])
    for v in values(None, case["size"], first):
        offer(p, v, case)
        ctx.trans()
    ctx.state()
    ctx.validated()


REF = {}


def reference(kind, which, st, height=None):
    """{cid: {id: [x, y, w, l]}} of every order."""
    key = (kind == "strip", which, st, height)
    if key not in REF:
        conts, dims = PROBS[which]
        items = [(i, d["w"], d["l"]) for i, d in gen.ids(dims).items()]
        cs = [(gen.STRIP_ID, 4, None)] if kind == "strip" else [(c, w, l) for c, (w, l) in conts.items()]

        def solve(seq):
            s, _ = model.solve(cs, seq, st, True, height)
            return {c: {i: list(r) for i, *r in v} for c, v in s.items()}
        REF[key] = solve, items
    return REF[key]


def history(case, ctx):
    kind = case["kind"]
    ops = operations(bool(case["small"]))
    first = [ops[i] for i in case["first"]]
    for rest in itertools.product(ops, repeat=case["depth"] - len(first)):
        seq = first + list(rest)
        for which in (0,) if kind == "strip" or case["small"] else (0, 1):
            p = make(kind, which)
            st = tuple(p.potential_points_strategy)
            if st != gen.DEFAULT:
                raise Violation("default strategy %s" % (st,))
            for k, op in enumerate(seq + [["solve"]]):
                info = "%s problem %d after %s" % (kind, which, seq[:k + 1])
                if op[0] == "set":
                    offer(p, op[1], info)
                    st = op[1] if ok(op[1]) else st
                elif op[0] == "del":
                    try:
                        del p.potential_points_strategy
                        raise Violation("deletion accepted | %s" % info)
                    except X.PotentialPointsError:
                        pass
                elif op[0] == "items":
                    p.items[gen.ITEM_IDS[0]] = dict(p.items[gen.ITEM_IDS[0]])
                elif op[0] == "validate":
                    p.validate_settings()
                elif op[0] in ("solve", "seq"):
                    solve, items = reference(kind, which, st, p.container_height)
                    ids = list(p.items)[::-1] if op[0] == "seq" else list(p.items)
                    p.solve(sequence=ids if op[0] == "seq" else None)
                    want = solve(items[::-1] if op[0] == "seq" else items)
                    if p.solution != want:
                        raise Violation("solve gives %s, strategy %s %s | %s" % (p.solution, st, want, info))
                elif op[0] == "local" and kind != "PointGenPack":
                    h = p.container_height
                    p.local_search()
                    if kind != "strip":
                        key = ("all", which, st)
                        if key not in REF:
                            solve, items = reference(kind, which, st)
                            REF[key] = [solve(list(o)) for o in itertools.permutations(items)]
                        if p.solution not in REF[key]:
                            raise Violation("local_search gives %s, no construction of strategy %s | %s" % (
                                p.solution, st, info))
                if tuple(p.potential_points_strategy) != st:
                    raise Violation("strategy is %s, must be %s | %s" % (p.potential_points_strategy, st, info))
                ctx.trans()
            ctx.state()
            ctx.validated()
            ctx.outcome(repr(p.solution))


def run(case, ctx):
    globals()[case["k"]](case, ctx)

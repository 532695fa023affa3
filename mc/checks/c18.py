import itertools

import env
import gen
import structs
import trace
from core import Violation

ID = "C18"
BOUNDS = {
    "quick": "every history of <=2 out of ~90 operations on the container and the heights of a strip and of 3 "
             "out of ~50, widths 1-3, HyperPack and PointGenPack; construction with every combination of "
             "valid and invalid width and containers",
    "thorough": "histories of 3 out of ~90 and of 4 out of ~50",
}
ORACLE = "reference state (width, height, minimum) in lock step; solving after each history"
NOTE = "Which library error refuses a container operation is not fixed; heights: DimensionsError / ContainersError."
hp = env.hyperpack()
X = hp.exceptions
ITEMS = {"a": {"w": 1, "l": 2}, "b": {"w": 2, "l": 1}, "c": {"w": 1, "l": 1}}
SID = gen.STRIP_ID
BADH = [0, -1, 1.5, 2.0, "3", None, [4], float("inf"), float("nan"), -2**70] + gen.ODD


def operations(W, small):
    ops = []
    d = lambda x, y: {"W": x, "L": y}
    for op in structs.alphabet("containers", small):
        # the same operations on the strip's container
        ops.append(["c"] + [SID if x == "a" else x for x in op])
    ops += [["c", "assign", {SID: d(W, 5)}], ["c", "set", SID, d(W, 2**100)], ["c", "setdim", SID, "W", W],
            ["c", "setdim", SID, "L", 7], ["c", "setdim", SID, "W", W + 1], ["c", "update", {SID: d(W, 4)}],
            ["c", "ior", {SID: d(W, 4)}], ["c", "iorattr", {"other": d(2, 2)}], ["c", "dupdate", SID, d(5, 5)],
            ["c", "dior", SID, {"W": 4}], ["c", "pop", SID], ["c", "del", SID], ["c", "deldim", SID, "L"]]
    drop = ("stale", "staledim")
    ops = [o for o in ops if o[1] not in drop]
    for v in [1, 2, 3, 5, 10 * W, 10 * W + 4] + ([41] if small else [41, 1000, 10**6]) + BADH[:3 if small else 99]:
        ops += [["h", v], ["m", v]]
    ops += [["delh"], ["delm"], ["reset"], ["solve"], ["local"]]
    if small:
        # one representative per kind of container operation
        seen, out = set(), []
        for o in ops:
            if o[0] == "c":
                if o[1] in seen:
                    continue
                seen.add(o[1])
            out.append(o)
        ops = out
    return ops


def cases(tier):
    q = tier == "quick"
    yield {"k": "construct"}
    for v in gen.SCALES[::1 if not q else 9]:
        yield {"k": "scale", "v": v}
    for cls in ("HyperPack", "PointGenPack"):
        for W in (2, 1, 3):
            for first in range(len(operations(W, False))):
                yield {"k": "history", "cls": cls, "W": W, "small": 0, "first": [first], "depth": 2}
    n = len(operations(2, True))
    for i, j in itertools.product(range(n), repeat=2):
        yield {"k": "history", "cls": "HyperPack", "W": 2, "small": 1, "first": [i, j], "depth": 3 if q else 4}
    if not q:
        n = len(operations(2, False))
        for i, j in itertools.product(range(n), repeat=2):
            yield {"k": "history", "cls": "HyperPack", "W": 2, "small": 0, "first": [i, j], "depth": 3}


def step(p, op, st, W, info):
    """st = [height, minimum]; one step in lock step."""
    before = structs.plain(p.containers)
    items = structs.plain(p.items)
    got, want = None, None
    lib = (X.ContainersError, X.DimensionsError, KeyError)
    h, mh = st
    try:
        if op[0] == "c":
            want = lib
            if op[1] in ("read",) or op[1] == "setdefault" and op[2] == SID or \
                    op[1] == "dsetdefault" and op[3] in ("W", "L") or \
                    op[1] in ("update", "ior", "dior", "dupdate", "iorattr") and not op[-1]:
                want = False      # may be accepted: changes nothing
            if op[1] == "dsetdefault" and op[2] != SID or op[1] in ("deldim",) and op[2] != SID:
                want = lib
            structs.apply(op[1:], p, "containers")
        elif op[0] == "h":
            ok = isinstance(op[1], int) and op[1] >= 1
            want = X.DimensionsError if not ok else X.ContainersError if mh is not None and op[1] < mh else None
            if want is None:
                st = [op[1], mh]
            p.container_height = op[1]
        elif op[0] == "m":
            ok = isinstance(op[1], int) and op[1] >= 1
            want = X.DimensionsError if not ok else X.ContainersError if op[1] > h else None
            if want is None:
                st = [h, op[1]]
            p.container_min_height = op[1]
        elif op[0] == "delh":
            want = X.DimensionsError
            del p.container_height
        elif op[0] == "delm":
            want = X.DimensionsError
            del p.container_min_height
        elif op[0] == "reset":
            st = [10 * W, None]
            p.reset_container_height()
        elif op[0] == "solve" and h <= 1000:
            p.solve()
        elif op[0] == "local" and h <= 1000 and hasattr(p, "local_search"):
            p.local_search()
            now = p.container_height
            if not isinstance(now, int) or now > h or mh is not None and now < mh:
                raise Violation("local_search sets height %s from %s, minimum %s | %s" % (now, h, mh, info))
            st = [now, mh]
    except Violation:
        raise
    except Exception as e:
        got = e
    if want is None and got is not None or want and not isinstance(got, want) or \
            want is False and got is not None and not isinstance(got, lib):
        raise Violation("%s, expected %s | %s" % (
            "accepted" if got is None else "refused with %r" % got, want or "acceptance", info))
    now = structs.plain(p.containers)
    if now != before:
        raise Violation("containers changed from %s to %s | %s" % (before, now, info))
    if structs.plain(p.items) != items:
        raise Violation("items changed | %s" % info)
    if [p.container_height, p.container_min_height] != st:
        raise Violation("heights are %s, must be %s | %s" % (
            [p.container_height, p.container_min_height], st, info))
    if list(now) != [SID] or now[SID]["W"] != W:
        raise Violation("containers %s for width %s | %s" % (now, W, info))
    return st


def history(case, ctx):
    W = case["W"]
    cls = getattr(hp, case["cls"])
    ops = operations(W, bool(case["small"]))
    first = [ops[i] for i in case["first"]]
    for rest in itertools.product(ops, repeat=case["depth"] - len(first)):
        seq = first + list(rest)
        p = cls(items=structs.plain(ITEMS), strip_pack_width=W)
        st = [10 * W, None]
        for k, op in enumerate(seq):
            st = step(p, op, st, W, "%s width %d after %s" % (case["cls"], W, seq[:k + 1]))
            ctx.trans()
        h = p.container_height
        ctx.state()
        ctx.validated()
        if h > 1000:
            continue
        f = cls(items=structs.plain(ITEMS), strip_pack_width=W)
        f.container_height = st[0]
        if st[1] is not None:
            f.container_min_height = st[1]
        p.solve()
        f.solve()
        if p.solution != f.solution or p.obj_val_per_container != f.obj_val_per_container:
            raise Violation("solves to %s, a fresh strip of the same heights to %s | width %d after %s" % (
                p.solution, f.solution, W, seq))
        if trace.top(p.solution) > h:
            raise Violation("solution %s above the height %s | %s" % (p.solution, h, seq))
        ctx.outcome((st, repr(p.solution)))


def construct(case, ctx):
    conts = [None, {"a": {"W": 2, "L": 2}}, {SID: {"W": 2, "L": 2}}, {}, [], {"a": 1}, 0]
    for cls in (hp.HyperPack, hp.PointGenPack):
        for W in [1, 2, 7, 1000] + BADH:
            for c in conts:
                if W is None:
                    continue
                got = p = None
                try:
                    p = cls(items=structs.plain(ITEMS), containers=c, strip_pack_width=W)
                except Exception as e:
                    got = e
                ok = isinstance(W, int) and W >= 1
                want = X.ContainersError if ok and c is not None else X.DimensionsError if not ok and c is None else \
                    (X.ContainersError, X.DimensionsError) if not ok else None
                ctx.state()
                ctx.trans()
                ctx.validated()
                if want is None and got is not None or want and not isinstance(got, want):
                    raise Violation("%s(strip_pack_width=%r, containers=%r) gives %r, expected %s" % (
                        cls.__name__, W, c, got, want))
                if p is not None:
                    if p.container_height != 10 * W or p.container_min_height is not None or \
                            list(p.containers) != [SID] or p.containers[SID]["W"] != W:
                        raise Violation("strip of width %s has height %s minimum %s containers %s" % (
                            W, p.container_height, p.container_min_height, p.containers))


def scale(case, ctx):
    """Widths and heights of every size (nothing is solved)."""
    for cls in (hp.HyperPack, hp.PointGenPack):
        for W in gen.SCALES:
            for v in sorted({1, W, 10 * W - 1, 10 * W, 10 * W + 1, 20 * W, case["v"]}):
                info = "%s of width %s, value %s" % (cls.__name__, W, v)
                p = cls(items=structs.plain(ITEMS), strip_pack_width=W)
                st = [10 * W, None]
                for op in (["m", v], ["h", v], ["m", v], ["reset"], ["h", v], ["m", v], ["h", v + 1], ["delh"], ["delm"],
                           ["h", v - 1], ["reset"]):
                    st = step(p, op, st, W, "%s, %s" % (info, op))
                    ctx.trans()
                ctx.state()
                ctx.validated()


def run(case, ctx):
    globals()[case["k"]](case, ctx)

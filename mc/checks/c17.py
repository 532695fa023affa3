import itertools

import env
import gen
import structs
import trace
from core import Violation

ID = "C17"
BOUNDS = {
    "quick": "items, containers and items of a strip: every history of <=2 out of 88 operations (assignment, "
             "update, |=, pop, setdefault, clear, deletion, valid and invalid) and of 3 out of 46, from 1-3 "
             "element structures (all items placed, some without room, containers left empty), with and without solving in between, HyperPack and PointGenPack; "
             "construction with every invalid value",
    "thorough": "histories of 3 out of 88 and of 4 out of 46 with two state dependent prefixes",
}
ORACLE = ("reference state machine (mc/structs.py) in lock step; after each history a fresh instance of the "
          "model's state must give the same solution")
NOTE = ("update, |= and clear with several elements may apply the elements that precede the refused one. "
        "Refused and value preserving operations may or may not reset the solution.")
hp = env.hyperpack()
X = hp.exceptions

START = {"items": {"a": {"w": 1, "l": 2}, "b": {"w": 2, "l": 1}},
         "containers": {"a": {"W": 3, "L": 2}, "b": {"W": 2, "L": 2}}}
ONE = {"items": {"b": {"w": 2, "l": 1}}, "containers": {"b": {"W": 3, "L": 3}}}
OTHER = {"items": {"x": {"w": 1, "l": 1}, "y": {"w": 2, "l": 1}, "z": {"w": 1, "l": 2}},
         "containers": {"k": {"W": 3, "L": 3}, "j": {"W": 2, "L": 1}}}
# items that find no room, containers that stay empty
TIGHT = {"items": {"a": {"w": 1, "l": 2}, "b": {"w": 4, "l": 5}},
         "containers": {"a": {"W": 1, "L": 1}, "b": {"W": 1, "L": 1}}}
FIRST = {"items": {"a": {"w": 4, "l": 5}, "b": {"w": 2, "l": 1}},
         "containers": {"a": {"W": 1, "L": 1}, "b": {"W": 3, "L": 2}}}
KEYS = {"items": ("w", "l"), "containers": ("W", "L")}
ERR = {"items": "ItemsError", "containers": "ContainersError"}


def cases(tier):
    q = tier == "quick"
    for where in ("items", "containers", "strip"):
        for cls in ("HyperPack", "PointGenPack"):
            yield {"k": "construct", "where": where, "cls": cls}
            attr = "containers" if where == "containers" else "items"
            big, small = structs.alphabet(attr), structs.alphabet(attr, True)
            for start in ("START", "ONE", "TIGHT", "FIRST"):
                for first in range(len(big)):
                    yield {"k": "history", "where": where, "cls": cls, "start": start, "small": 0,
                           "first": [first], "depth": 2}
            if cls == "HyperPack":
                for i, j in itertools.product(range(len(small)), repeat=2):
                    yield {"k": "history", "where": where, "cls": cls, "start": "START", "small": 1,
                           "first": [i, j], "depth": 3}
    if not q:
        for where in ("items", "containers", "strip"):
            attr = "containers" if where == "containers" else "items"
            n = len(structs.alphabet(attr))
            for i, j in itertools.product(range(n), repeat=2):
                yield {"k": "history", "where": where, "cls": "HyperPack", "start": "START", "small": 0,
                       "first": [i, j], "depth": 3}
            n = len(structs.alphabet(attr, True))
            for i, j in itertools.product(range(n), repeat=2):
                yield {"k": "history", "where": where, "cls": "HyperPack", "start": "ONE", "small": 1,
                       "first": [i, j], "depth": 4 if i < 20 and j < 20 else 3}


def make(cls, where, attr, m):
    if where == "strip":
        return cls(items=structs.plain(m), strip_pack_width=3)
    d = {"items": OTHER["items"], "containers": OTHER["containers"]}
    d[attr] = m
    return cls(items=structs.plain(d["items"]), containers=structs.plain(d["containers"]))


def apply_checked(p, op, attr, m, info):
    """One step of the lock step; returns the model's new state."""
    other = "items" if attr == "containers" else "containers"
    other_before = structs.plain(getattr(p, other))
    sol, val = trace.copy(p.solution), dict(getattr(p, "obj_val_per_container", {}))
    ends, errors = structs.model(op, m, KEYS[attr], ERR[attr])
    got = None
    try:
        structs.apply(op, p, attr)
    except Exception as e:
        got = e
    now = structs.plain(getattr(p, attr))
    if errors is None and got is not None:
        raise Violation("refused with %s: %s | %s" % (type(got).__name__, got, info))
    if errors is not None and (got is None or type(got).__name__ not in errors):
        raise Violation("%s instead of %s, structure is %s | %s" % (
            "accepted" if got is None else "%s: %s" % (type(got).__name__, got), "/".join(errors), now, info))
    match = [e for e in ends if e == now and list(e) == list(now)]
    if not match:
        raise Violation("holds %s, must hold %s | %s" % (now, ends[-1], info))
    if structs.plain(getattr(p, other)) != other_before:
        raise Violation("the %s changed | %s" % (other, info))
    for k, d in now.items():
        if not isinstance(k, str) or set(d) != set(KEYS[attr]) or not all(
                isinstance(v, int) and v > 0 for v in d.values()):
            raise Violation("holds invalid data %s | %s" % (now, info))
    changed = now != m or list(now) != list(m)
    empty = not p.solution and not p.obj_val_per_container
    if changed and not empty:
        raise Violation("changed from %s to %s, but solution %s values %s are kept | %s" % (
            m, now, p.solution, p.obj_val_per_container, info))
    if not empty and (p.solution != sol or p.obj_val_per_container != val):
        raise Violation("solution became %s values %s | %s" % (p.solution, p.obj_val_per_container, info))
    return now


def history(case, ctx):
    where, attr = case["where"], "containers" if case["where"] == "containers" else "items"
    cls = getattr(hp, case["cls"])
    ops = structs.alphabet(attr, bool(case["small"]))
    start = globals()[case["start"]][attr]
    first = [ops[i] for i in case["first"]]
    for rest in itertools.product(ops, repeat=case["depth"] - len(first)):
        seq = first + list(rest)
        for solve_between in (False, True):
            p = make(cls, where, attr, start)
            p.solve()
            m = structs.plain(start)
            for k, op in enumerate(seq):
                m = apply_checked(p, op, attr, m, "%s %s from %s after %s solving %s" % (
                    case["cls"], where, start, seq[:k + 1], "between" if solve_between else "once"))
                ctx.trans()
                if solve_between:
                    p.solve()
            if not solve_between:
                p.solve()
            f = make(cls, where, attr, m)
            f.solve()
            same = (p.solution == f.solution and p.obj_val_per_container == f.obj_val_per_container and
                    list(p.solution) == list(f.solution))
            if same and cls is hp.HyperPack:
                same = p.calculate_obj_value() == f.calculate_obj_value()
            if not same:
                raise Violation("solves to %s %s, a fresh instance of %s to %s %s | %s %s from %s after %s" % (
                    p.solution, p.obj_val_per_container, m, f.solution, f.obj_val_per_container,
                    case["cls"], where, start, seq))
            ctx.state()
            ctx.validated()
            ctx.outcome(repr(m))


def construct(case, ctx):
    where, attr = case["where"], "containers" if case["where"] == "containers" else "items"
    cls = getattr(hp, case["cls"])
    for op in structs.alphabet(attr):
        if op[0] != "assign":
            continue
        ends, errors = structs.model(op, {}, KEYS[attr], ERR[attr])
        kw = {"strip_pack_width": 3, "items": op[1]} if where == "strip" else {
            "items": OTHER["items"], "containers": OTHER["containers"], attr: op[1]}
        got, p = None, None
        try:
            p = cls(**kw)
        except Exception as e:
            got = e
        ctx.state()
        ctx.trans()
        ctx.validated()
        if (got is None) != (errors is None) or got is not None and type(got).__name__ not in errors:
            raise Violation("constructing with %s %s gives %r, expected %s" % (attr, op[1], got, errors))
        if p is not None and (structs.plain(getattr(p, attr)) != op[1] or p.solution):
            raise Violation("constructed with %s, holds %s solution %s" % (op[1], getattr(p, attr), p.solution))


def run(case, ctx):
    globals()[case["k"]](case, ctx)

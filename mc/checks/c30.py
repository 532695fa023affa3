import itertools
import types

import env
import gen
import structs
from core import Violation

ID = "C30"
BOUNDS = {
    "quick": "Items and Containers of their own: every history of <=2 out of ~70 operations and of 3 out of ~40 "
             "from 1-2 elements; items and containers of a problem and of a strip: every history of <=2 out of ~45 "
             "operations; text, copies (whole, every sequence of every subset of the ids), length, order and "
             "lookup in every state; Dimensions of their own: every history of <=3 out of ~25 operations",
    "thorough": "histories of 3 out of ~70, of 4 out of ~40 with 20 first operations; of 3 for problems",
}
ORACLE = "reference state machine (mc/structs.py) in lock step; the documented text of the reference state"
NOTE = "Blank lines and trailing spaces of the text are not compared."
hp = env.hyperpack()
X = hp.exceptions
KEYS = {"items": ("w", "l"), "containers": ("W", "L")}
ERR = {"items": "ItemsError", "containers": "ContainersError"}
CLS = {"items": hp.Items, "containers": hp.Containers}
START = {"items": {"a": {"w": 1, "l": 2}, "b": {"w": 12, "l": 1}},
         "containers": {"a": {"W": 30, "L": 2}, "b": {"W": 2, "L": 2}}}
ONE = {"items": {"b": {"w": 2, "l": 1}}, "containers": {"b": {"L": 3, "W": 4}}}
ODD = {"items": {"": {"l": 7, "w": 5}, "id: q": {"w": 10**20, "l": 1}, "item 3 \u00e4": {"w": 3, "l": 300}},
       "containers": {" ": {"L": 7, "W": 5}, "{}": {"W": 10**20, "L": 1}, "%s": {"W": 3, "L": 300}}}
STARTS = {"START": START, "ONE": ONE, "ODD": ODD}
OUT = ("assign", "delattr", "stale", "staledim")


def alphabet(attr, small):
    return [o for o in structs.alphabet(attr, small) if o[0] not in OUT]


def cases(tier):
    q = tier == "quick"
    yield {"k": "build"}
    for attr in ("items", "containers"):
        for n, s in ((1, 1), (2, 1), (3, 2), (5, 4), (10, 10), (50, 40), (300, 100)):
            yield {"k": "scale", "attr": attr, "n": n, "step": s}
    for attr in ("items", "containers"):
        yield {"k": "dims", "attr": attr, "depth": 3 if q else 4}
        big, small = range(len(alphabet(attr, False))), range(len(alphabet(attr, True)))
        for start in STARTS:
            for i in big:
                yield {"k": "alone", "attr": attr, "start": start, "small": 0, "first": [i], "depth": 2 if q else 3}
        for i in small:
            for j in small if i < 20 or q else ():
                yield {"k": "alone", "attr": attr, "start": "START", "small": 1, "first": [i, j], "depth": 3 if q else 4}
    for where in ("items", "containers", "strip"):
        for start in STARTS:
            n = len(alphabet("containers" if where == "containers" else "items", True))
            for i in range(n):
                yield {"k": "held", "where": where, "start": start, "small": 1, "first": [i], "depth": 2 if q else 3}


def text(attr, m, strip=False):
    w, l = KEYS[attr]
    lines = [attr.capitalize()]
    for k, d in m.items():
        lines += ["  - id: %s" % k, "    width: %s" % d[w]]
        if not strip:
            lines += ["    length: %s" % d[l]]
    return [x.rstrip() for x in "\n".join(lines).split("\n") if x.strip()]


def reads(s, attr, m, info, strip=False):
    """What a user sees of structure `s`, which holds `m`."""
    got = [x.rstrip() for x in str(s).split("\n") if x.strip()]
    if got != text(attr, m, strip):
        raise Violation("prints as %r, holds %s | %s" % (str(s), m, info))
    if "%s" % s != str(s) or format(s) != str(s):
        raise Violation("formats as %r instead of %r | %s" % (format(s), str(s), info))
    if list(s) != list(m) or list(s.keys()) != list(m) or len(s) != len(m) or not s or s != m or \
            [(k, dict(d)) for k, d in s.items()] != list(m.items()) or [dict(d) for d in s.values()] != list(m.values()):
        raise Violation("reads as %s, holds %s | %s" % (dict(s), m, info))
    for k in m:
        if k not in s or dict(s[k]) != m[k] or s.get(k) != m[k] or len(s[k]) != 2 or \
                any(s[k].get(x) != m[k][x] or x not in s[k] for x in m[k]):
            raise Violation("has %s for %r, holds %s | %s" % (s.get(k), k, m, info))
    if "\0" in s or s.get("\0") is not None or "\0" in next(iter(s.values())):
        raise Violation("has an element that is not in %s | %s" % (m, info))
    ids = list(m)
    if len(ids) < 6:
        seqs = [None] + [list(x) for n in range(1, len(ids) + 1) for x in itertools.permutations(ids, n)]
    else:
        seqs = [None, ids, ids[1:] + ids[:1], ids[::2], ids[-1:], ids[3:1:-1]]
    for seq in seqs + [tuple(ids[::-1]), [], ()]:
        c = s.deepcopy() if seq is None else s.deepcopy(seq)
        want = m if seq is None else {k: m[k] for k in seq}
        if c != want or list(c) != list(want) or type(c) is not dict or any(type(d) is not dict for d in c.values()):
            raise Violation("deepcopy(%s) is %r of %s | %s" % (seq, c, m, info))
        for d in c.values():                     # a copy of its own
            for x in d:
                d[x] = -5
        c.clear()
    if structs.plain(s) != m:
        raise Violation("changing a copy changed the structure to %s from %s | %s" % (structs.plain(s), m, info))


def step(p, op, attr, m, info):
    ends, errors = structs.model(op, m, KEYS[attr], ERR[attr])
    got = None
    try:
        structs.apply(op, p, attr)
    except Exception as e:
        got = e
    now = structs.plain(getattr(p, attr))
    if errors is None and got is not None:
        raise Violation("refused with %s: %s | %s" % (type(got).__name__, got, info))
    if errors is not None and (got is None or type(got).__name__ not in errors):
        raise Violation("%s instead of %s, structure is %s | %s" % (
            "accepted" if got is None else "%s: %s" % (type(got).__name__, got), "/".join(errors), now, info))
    if not any(e == now and list(e) == list(now) for e in ends):
        raise Violation("holds %s, must hold %s | %s" % (now, ends[-1], info))
    return now


def seqs(case, attr):
    ops = alphabet(attr, bool(case["small"]))
    first = [ops[i] for i in case["first"]]
    for rest in itertools.product(ops, repeat=case["depth"] - len(first)):
        yield first + list(rest)


def alone(case, ctx):
    attr = case["attr"]
    m0 = STARTS[case["start"]][attr]
    for seq in seqs(case, attr):
        given = structs.plain(m0)
        p = types.SimpleNamespace(**{attr: CLS[attr](given)})
        for d in given.values():                 # the structure is a copy of what it was given
            d["w"] = 0
        given.clear()
        m = structs.plain(m0)
        for k, op in enumerate(seq):
            info = "%s(%s) after %s" % (CLS[attr].__name__, m0, seq[:k + 1])
            m = step(p, op, attr, m, info)
            if k == len(seq) - 1 or len(seq) == 2:
                reads(getattr(p, attr), attr, m, info)
            ctx.trans()
        ctx.state()
        ctx.validated()
        ctx.outcome(repr(m))


def held(case, ctx):
    where = case["where"]
    attr = "containers" if where == "containers" else "items"
    other = "items" if attr == "containers" else "containers"
    m0 = STARTS[case["start"]][attr]
    for seq in seqs(case, attr):
        if where == "strip":
            p = hp.HyperPack(items=structs.plain(m0), strip_pack_width=7)
        else:
            p = hp.HyperPack(**{attr: structs.plain(m0), other: structs.plain(START[other])})
        m = structs.plain(m0)
        for k, op in enumerate(seq):
            info = "%s of %s after %s" % (attr, "a strip" if where == "strip" else "a problem", seq[:k + 1])
            m = step(p, op, attr, m, info)
            reads(getattr(p, attr), attr, m, info)
            if where == "strip":
                o = p.containers
                if [x.rstrip() for x in str(o).split("\n") if x.strip()] != \
                        text("containers", {gen.STRIP_ID: {"W": 7}}, strip=True):
                    raise Violation("the strip prints as %r | %s" % (str(o), info))
            else:
                reads(getattr(p, other), other, START[other], info)
            ctx.trans()
        ctx.state()
        ctx.validated()
        ctx.outcome(repr(m))


def dims(case, ctx):
    """Dimensions that belong to a structure without problem."""
    attr = case["attr"]
    w, l = KEYS[attr]
    cls = CLS[attr]
    vals = [3, 1, 2**80, 0, -1, 1.5, "2", None]
    ops = [("set", k, v) for k in (w, l) for v in vals] + [
        ("set", w.swapcase(), 1), ("set", "", 1), ("set", None, 2), ("update", {w: 5, l: 6}), ("update", {l: 4}),
        ("update", {}), ("update", {w: 0}), ("update", {"x": 3}), ("ior", {w: 8}), ("ior", {l: -8}),
        ("setdefault", w, 9), ("setdefault", "x", 9), ("del", w), ("del", "x"), ("pop", l), ("popitem",), ("clear",)]
    refused = X.DimensionsError
    for seq in itertools.product(ops, repeat=case["depth"]):
        s = cls({"q": {w: 7, l: 7}})
        d, m = hp.Dimensions({w: 1, l: 2}, s), {w: 1, l: 2}
        for op in seq:
            want, new = None, dict(m)
            if op[0] in ("set",):
                want = None if op[1] in (w, l) and structs.valid_value(op[2]) else refused
                new[op[1]] = op[2]
            elif op[0] in ("update", "ior"):
                want = None if all(k in (w, l) and structs.valid_value(v) for k, v in op[1].items()) else refused
                new.update(op[1])
            elif op[0] == "setdefault":
                want = None if op[1] in m else refused
            else:
                want = (refused, KeyError) if op[-1] == "x" else refused
            got = None
            try:
                if op[0] == "set":
                    d[op[1]] = op[2]
                elif op[0] == "del":
                    del d[op[1]]
                elif op[0] == "ior":
                    d |= op[1]
                else:
                    getattr(d, op[0])(*op[1:])
            except Exception as e:
                got = e
            if want is None:
                m = new
            if (want is None) != (got is None) or want and not isinstance(got, want) or dict(d) != m or len(d) != 2:
                raise Violation("Dimensions give %r and hold %s, must hold %s (%s) | %s" % (
                    got, dict(d), m, want or "accepted", seq))
            ctx.trans()
        if structs.plain(s) != {"q": {w: 7, l: 7}}:
            raise Violation("the reference structure changed | %s" % (seq,))
        ctx.state()
        ctx.validated()


def scale(case, ctx):
    """Values of every size; many elements."""
    attr, n = case["attr"], case["n"]
    w, l = KEYS[attr]
    for start in range(0, len(gen.SCALES), case["step"]):
        vals = (gen.SCALES[start:] + gen.SCALES[:start])
        m = {("%d" % (7 * k)): {w: vals[k % len(vals)], l: vals[(k + 1) % len(vals)]} for k in range(n)}
        s = CLS[attr](structs.plain(m))
        info = "%s of %d elements, first %s" % (attr, n, list(m.values())[0])
        reads(s, attr, m, info)
        k = list(m)[-1]
        s[k][w] = m[k][w] = vals[7 % len(vals)]
        s["new"] = {w: vals[8 % len(vals)], l: 1}
        m["new"] = {w: vals[8 % len(vals)], l: 1}
        reads(s, attr, m, info)
        other = "items" if attr == "containers" else "containers"
        p = hp.HyperPack(**{attr: structs.plain(m), other: structs.plain(START[other])})
        reads(getattr(p, attr), attr, m, info)
        ctx.state()
        ctx.trans(3)
        ctx.validated()
        ctx.outcome(repr(m))


def build(case, ctx):
    for attr in ("items", "containers"):
        cls, (w, l) = CLS[attr], KEYS[attr]
        for op in structs.alphabet(attr):
            if op[0] != "assign":
                continue
            ends, errors = structs.model(op, {}, KEYS[attr], ERR[attr])
            got = s = None
            try:
                s = cls(op[1])
            except Exception as e:
                got = e
            if (got is None) != (errors is None) or got is not None and type(got).__name__ not in errors:
                raise Violation("%s(%r) gives %r, expected %s" % (cls.__name__, op[1], got, errors))
            if s is not None:
                reads(s, attr, ends[0], "constructed")
            ctx.state()
            ctx.trans()
            ctx.validated()
        other = CLS["items" if attr == "containers" else "containers"]
        good = {"w": 1, "l": 1} if attr == "items" else {"W": 1, "L": 1}
        ref = cls({"a": dict(good)})
        bad = [None, {}, [], 5, "wl", {w: 1}, {l: 1}, {w: 1, l: 0}, {w: -1, l: 1}, {w: 1.0, l: 1}, {w: 1, l: "1"},
               {w: 1, l: 1, "x": 1}, {w.swapcase(): 1, l.swapcase(): 1}, [(w, 1), (l, 1)]]
        for dims_, reference in [(b, ref) for b in bad] + [(good, x) for x in (None, {}, good, cls, other, "items")]:
            try:
                d = hp.Dimensions(dims_, reference)
            except X.DimensionsError:
                pass
            except Exception as e:
                raise Violation("Dimensions(%r, %r) raises %r" % (dims_, reference, e))
            else:
                raise Violation("Dimensions(%r, %r) accepted as %s" % (dims_, reference, d))
            ctx.state()
            ctx.trans()


def run(case, ctx):
    globals()[case["k"]](case, ctx)

"""Reference state machine of the items / containers structures.

A structure is an ordered {id: {key: positive int}} of at least one element.  An operation
is a list [kind, args...]; `model(op, m, keys, err)` returns (allowed end states, error
classes or None, changed) for the plain dict m; `apply(op, p, attr)` performs it on a
problem instance."""
import collections
import copy
import enum

import gen

BAD = "bad"


class Int(int):
    pass


class Size(enum.IntEnum):
    TWO = 2


class Str(str):
    pass


class Dict(dict):
    pass


class Refused(Exception):
    def __init__(self, *classes):
        self.classes = classes


def valid_value(v):
    return isinstance(v, int) and v > 0


def check_dims(d, keys):
    if not isinstance(d, dict) or not d or set(d) != set(keys) or not all(map(valid_value, d.values())):
        raise Refused("DimensionsError")


def put(m, k, d, keys, err):
    if not isinstance(k, str):
        raise Refused(err)
    check_dims(d, keys)
    m[k] = dict(d)


def put_dim(m, i, k, v, keys):
    if k not in keys or not valid_value(v):
        raise Refused("DimensionsError")
    m[i][k] = v


def remove(m, k, err):
    if len(m) == 1:
        raise Refused(err) if k in m else Refused(err, "KeyError")
    if k not in m:
        raise Refused("KeyError")
    del m[k]


def model(op, m, keys, err):
    """Returns (list of allowed end states, error class names or None)."""
    before, m = copy.deepcopy(m), copy.deepcopy(m)
    kind, a = op[0], op[1:]
    atomic = True
    try:
        if kind == "assign":
            v = a[0]
            if not isinstance(v, dict) or not v:
                raise Refused(err)
            new = {}
            for k, d in v.items():
                put(new, k, d, keys, err)
            m = new
        elif kind == "set":
            put(m, a[0], a[1], keys, err)
        elif kind == "setdim":
            if a[0] not in m:
                raise Refused("KeyError")
            put_dim(m, a[0], a[1], a[2], keys)
        elif kind in ("update", "updatepairs", "updatekw", "ior", "iorattr"):
            atomic = False
            for k, d in a[0].items():
                put(m, k, d, keys, err)
        elif kind in ("dupdate", "dupdatekw", "dior"):
            atomic = False
            if a[0] not in m:
                raise Refused("KeyError")
            for k, v in a[1].items():
                put_dim(m, a[0], k, v, keys)
        elif kind in ("del", "pop"):
            remove(m, a[0], err)
        elif kind == "popitem":
            remove(m, next(iter(m)), err)
        elif kind == "clear":
            atomic = False
            while True:
                remove(m, next(iter(m)), err)
        elif kind == "setdefault":
            if a[0] not in m:
                put(m, a[0], a[1], keys, err)
        elif kind == "dsetdefault":
            if a[0] not in m:
                raise Refused("KeyError")
            if a[1] not in m[a[0]]:
                put_dim(m, a[0], a[1], a[2], keys)
        elif kind in ("deldim", "dpop", "dpopitem", "dclear"):
            if a[0] not in m:
                raise Refused("KeyError")
            if kind == "dpop" and a[1] not in keys:
                raise Refused("DimensionsError", "KeyError")
            raise Refused("DimensionsError")
        elif kind == "delattr":
            raise Refused(err)
        elif kind in ("stale", "staledim", "read"):
            pass
        else:
            raise AssertionError(kind)
    except Refused as e:
        ends = [before] if atomic else [before, m]
        return ends, e.classes
    return [m], None


def apply(op, p, attr):
    kind, a = op[0], copy.deepcopy(op[1:])
    s = getattr(p, attr)
    if kind == "assign":
        setattr(p, attr, a[0])
    elif kind == "set":
        s[a[0]] = a[1]
    elif kind == "setdim":
        s[a[0]][a[1]] = a[2]
    elif kind == "update":
        s.update(a[0])
    elif kind == "updatepairs":
        s.update(list(a[0].items()))
    elif kind == "updatekw":
        s.update(**a[0])
    elif kind == "dupdatekw":
        s[a[0]].update(**a[1])
    elif kind == "ior":
        s |= a[0]
    elif kind == "iorattr":
        if attr == "items":
            p.items |= a[0]
        else:
            p.containers |= a[0]
    elif kind == "dupdate":
        s[a[0]].update(a[1])
    elif kind == "dior":
        s[a[0]] |= a[1]
    elif kind == "del":
        del s[a[0]]
    elif kind == "pop":
        s.pop(a[0])
    elif kind == "popitem":
        s.popitem()
    elif kind == "clear":
        s.clear()
    elif kind == "setdefault":
        s.setdefault(a[0], a[1])
    elif kind == "dsetdefault":
        s[a[0]].setdefault(a[1], a[2])
    elif kind == "deldim":
        del s[a[0]][a[1]]
    elif kind == "dpop":
        s[a[0]].pop(a[1])
    elif kind == "dpopitem":
        s[a[0]].popitem()
    elif kind == "dclear":
        s[a[0]].clear()
    elif kind == "delattr":
        delattr(p, attr)
    elif kind == "stale":
        # a structure that was replaced has no influence any more
        setattr(p, attr, plain(s))
        s["stale"] = a[0]
    elif kind == "staledim":
        d = next(iter(s.values()))
        setattr(p, attr, plain(s))
        d[a[0]] = a[1]
    elif kind == "read":
        str(s), len(s), list(s), s.deepcopy(), s.deepcopy(list(s)[::-1]), dict(s), repr(s), list(s.items())
        s.get("zz"), "zz" in s
    else:
        raise AssertionError(kind)


def plain(s):
    return {k: {x: s[k][x] for x in s[k]} for k in s}


def alphabet(attr, small=False):
    w, l = ("w", "l") if attr == "items" else ("W", "L")
    d = lambda x, y: {w: x, l: y}
    huge = 10 ** 40 if attr == "items" else 4        # containers are solved
    bad_dims = [None, {}, [], "x", 5, {w: 1}, {w: 1, l: 1, "x": 1}, {w: 1, "x": 1}, d(0, 1), d(1, 0), d(-1, 1),
                d(1, -3), d(1.0, 1), d(1, 1.5), d("1", 1), d(1, None), {w.swapcase(): 1, l.swapcase(): 1},
                [(w, 1), (l, 1)], d(gen.ODD[0], 1), d(1, gen.ODD[1])]
    bad_vals = [0, -1, 1.0, 2.5, "1", None, [1], float("inf"), float("nan")] + gen.ODD[:3]
    if small:
        bad_dims, bad_vals = [None, d(1, 0), {w: 1}], [0, 1.5]
    ops = [["set", "a", d(2, 2)], ["set", "c", d(1, 1)], ["setdim", "a", w, 3], ["setdim", "b", l, 1],
           ["del", "a"], ["assign", {"b": d(1, 1)}], ["assign", {"a": d(1, 2), "b": d(2, 1)}],
           ["update", {"b": d(1, 3), "c": d(2, 1)}], ["ior", {"a": d(3, 1)}], ["iorattr", {"c": d(1, 2)}],
           ["dupdate", "a", d(2, 1)], ["dior", "b", {w: 1}], ["pop", "b"], ["popitem"], ["clear"],
           ["setdefault", "a", d(5, 5)], ["setdefault", "c", d(2, 2)], ["dsetdefault", "a", w, 4],
           ["stale", d(1, 1)], ["staledim", w, 4], ["read"],
           # any string is an id
           ["set", "", d(2, 1)], ["assign", {"": d(1, 1), "%s": d(2, 2), "A b": d(1, 2)}], ["update", {"{}": d(1, 1), " ": d(2, 1)}],
           ["assign", {"y" * 10000: d(huge, 1), "\n\0\u00e9\ud800": d(1, 2), "x" * 300: d(1, 1)}], ["set", "z" * 256, d(1, huge)],
           # refused
           ["delattr"], ["deldim", "a", w], ["dpop", "b", l], ["dpopitem", "a"], ["dclear", "b"],
           ["setdim", "a", "x", 1], ["set", 1, d(1, 1)], ["set", None, d(1, 1)], ["assign", {"a": d(1, 1), 2: d(1, 1)}],
           ["update", {"a": d(4, 1), "c": d(1, 0)}], ["iorattr", {"b": {w: 1}}], ["dupdate", "b", {w: 4, l: 0}],
           ["dior", "a", {"x": 1}], ["del", "zz"], ["pop", "zz"], ["dsetdefault", "a", "x", 4],
           ["update", {3: d(1, 1)}], ["setdefault", "c", d(0, 2)], ["setdefault", 7, d(1, 2)]]
    if not small:
        ops += [["deldim", "a", "x"], ["dpop", "a", "x"], ["setdim", "zz", w, 1], ["update", {}], ["dior", "a", {}],
                ["setdim", "a", w.swapcase(), 1], ["ior", {"c": d(1, -1)}]]
        # any int and any dict will do
        ops += [["assign", Dict({Str("a"): Dict(d(Size.TWO, Int(1))), "b": collections.OrderedDict(d(1, 2))})], ["setdim", "a", w, Size.TWO],
               ["updatepairs", {"b": d(Int(2), 1), "c": d(1, 2)}], ["updatekw", {"b": d(1, 1), "c": Dict(d(2, 1))}],
               ["dupdatekw", "a", d(1, 3)],
               ["updatepairs", {"a": d(1, 4), "b": d(1, Int(0))}], ["updatekw", {"c": d(1.0, 1)}], ["dupdatekw", "b", {w: Int(-2)}]]
    ops += [["set", "a", x] for x in bad_dims] + [["set", "c", bad_dims[-1]]]
    ops += [["assign", x] for x in (None, {}, [], "items", 3, ())[:3 if small else 6]]
    ops += [["assign", {"a": d(1, 1), "b": x}] for x in bad_dims[:3]] + [["assign", {"b": x}] for x in bad_dims[3:]]
    ops += [["setdim", "a", l, v] for v in bad_vals]
    return ops

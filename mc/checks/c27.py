import copy
import itertools
import os
import sys

import env
import gen
import model
import trace
from core import Violation
from structs import plain

ID = "C27"
CPU_LIMIT = 400
BOUNDS = {
    "quick": "every history of 3 out of 50 and 2 out of 84 operations on: the dictionaries given for items and containers, a dictionary "
             "given for one item, two instances built from them, copies handed out by deepcopy; bin packing, and "
             "2 operations for strips, the reduced class and a bin instance beside a strip instance; with and without solving first; 11 operations of "
             "one instance preempted at every line of the library (every 7th beyond 3000) by 8 operations of another",
    "thorough": "3 out of 84 operations, 4 out of 50 for bin packing",
}
ORACLE = ("snapshot of every other object after each operation; finally every instance solves like the reference "
          "construction of its own items and containers")
hp = env.hyperpack()
ERRORS = (hp.exceptions.ItemsError, hp.exceptions.ContainersError, hp.exceptions.DimensionsError, KeyError)
A, C = "items", "containers"
ITEMS = {"a": {"w": 2, "l": 3}, "b": {"w": 1, "l": 2}, "c": {"w": 3, "l": 1}}
CONTS = {"A": {"W": 4, "L": 3}, "B": {"W": 3, "L": 2}}
KEYS = {A: ("w", "l"), C: ("W", "L")}
FIRST = {A: "a", C: "A"}


def operations(small=False):
    ops = []
    for attr in (A, C):
        for who in ("G", "D"):
            ops += [[who, attr, "nested"], [who, attr, "swap"], [who, attr, "delete"], [who, attr, "add"]]
            if not small:
                ops += [[who, attr, "clear"], [who, attr, "update"]]
        for who in ("p", "q"):
            ops += [[who, attr, "nested"], [who, attr, "setdim"], [who, attr, "assign"], [who, attr, "take"]]
            if not small or who == "p":
                ops += [[who, attr, x] for x in ("set", "update", "takesome", "assigncopy", "delete")]
            if not small:
                ops += [[who, attr, x] for x in ("ior", "rebuild")]
    ops += [["d", A, "nested"], ["d", A, "clear"]]
    for who in ("p", "q"):
        ops += [[who, None, x] for x in ("solve", "local", "orient") + (() if small else (
            "hyper", "sort", "strategy", "rotation"))]
    return ops


def cases(tier):
    q = tier == "quick"
    for a in INTERRUPTED:
        for b in MEANWHILE:
            if a != "hyper" or b in ("solve", "local", "strip"):
                yield {"k": "interleaved", "a": a, "b": b}
    n = len(operations())
    for kind in ("bin", "strip", "low", "mixed"):
        depth = 2 if q else 3
        for pre in ([], ["ps"], ["qs"], ["ps", "qs"]):
            for i in range(n):
                yield {"k": kind, "pre": pre, "first": [i], "depth": depth, "small": 0}
    m = len(operations(True))
    if q:
        for i in range(m):
            for pre in ([], ["ps", "qs"]):
                yield {"k": "bin", "pre": pre, "first": [i], "depth": 3, "small": 1}
    else:
        for i, j in itertools.product(range(m), repeat=2):
            yield {"k": "bin", "pre": ["ps", "qs"], "first": [i, j], "depth": 4, "small": 1}


class World:
    def __init__(self, kind):
        self.kind = kind
        self.G = {A: copy.deepcopy(ITEMS), C: copy.deepcopy(CONTS)}
        self.d = {"w": 2, "l": 2}
        self.inst = {"p": self.make("p"), "q": self.make("q")}
        self.D = {A: self.inst["p"].items.deepcopy(), C: self.inst["p"].containers.deepcopy()}

    def make(self, who):
        cls = hp.PointGenPack if self.kind == "low" else hp.HyperPack
        if self.kind == "strip" or self.kind == "mixed" and who == "q":
            return cls(items=self.G[A], strip_pack_width=4)
        return cls(self.G[C], self.G[A])

    def snap(self, who):
        if who in ("p", "q"):
            p = self.inst[who]
            out = [order(plain(p.items)), order(plain(p.containers)), trace.copy(p.solution),
                   dict(getattr(p, "obj_val_per_container", {})), p.container_height, p.container_min_height,
                   p.potential_points_strategy, dict(p.settings), {k: list(v) for k, v in p.solution.items()}]
            return out
        return order(self.d) if who == "d" else [order(getattr(self, who)[A]), order(getattr(self, who)[C])]


def order(d):
    return [(k, order(v) if isinstance(v, dict) else v) for k, v in d.items()]


def perform(w, op):
    who, attr, what = op
    if who in ("G", "D"):
        g = getattr(w, who)[attr]
        k = next(iter(g), None)
        x, y = KEYS[attr]
        if what == "clear":
            g.clear()
        elif what == "add":
            g["new"] = {x: 1, y: 1}
        elif what == "update":
            g.update({FIRST[attr]: {x: 1, y: 2}, "z": {x: 1, y: 1}})
        elif k is not None:
            if what == "nested":
                g[k][x] += 1
            elif what == "swap":
                g[k][x], g[k][y] = g[k][y], g[k][x]
            elif what == "delete":
                del g[k]
        return
    if who == "d":
        if what == "clear":
            w.d.clear()
        else:
            w.d["w"] = w.d.get("w", 0) + 1
        return
    p = w.inst[who]
    if attr is None:
        if what == "solve":
            p.solve()
        elif what == "local":
            p.local_search() if w.kind != "low" else p.solve()
        elif what == "hyper":
            if w.kind != "low":
                p.hypersearch(_exhaustive=False)
        elif what == "orient":
            if w.kind != "low":
                p.orient_items("long")
        elif what == "sort":
            if w.kind != "low":
                p.sort_items(("area", False))
        elif what == "strategy":
            p.potential_points_strategy = ("B", "A", "C_")[:2]
        elif what == "rotation":
            p.settings = dict(p.settings, rotation=not p.settings.get("rotation", True))
        return
    if w.kind == "mixed" and attr == C and p.container_height is not None and what.startswith("take"):
        # the nominal length of a strip is no length for a bin
        return
    s = getattr(p, attr)
    x, y = KEYS[attr]
    k = next(iter(s))
    if what == "nested":
        s[k][x] = s[k][x] + 1
    elif what == "setdim":
        s[k] |= {x: 1, y: 2}
    elif what == "assign":
        setattr(p, attr, w.G[attr])
    elif what == "assigncopy":
        setattr(p, attr, w.D[attr])
    elif what == "take":
        w.D[attr] = s.deepcopy()
        if order(w.D[attr]) != order(plain(s)):
            raise Violation("deepcopy of %s gives %s" % (plain(s), w.D[attr]))
    elif what == "takesome":
        ids = list(s)[::-1]
        w.D[attr] = s.deepcopy(ids)
        if order(w.D[attr]) != [(i, order(plain(s)[i])) for i in ids]:
            raise Violation("deepcopy(%s) of %s gives %s" % (ids, plain(s), w.D[attr]))
    elif what == "set":
        s["new"] = w.d if attr == A else {"W": 2, "L": 2}
    elif what == "update":
        s.update(w.G[attr])
    elif what == "ior":
        s |= w.D[attr]
    elif what == "delete":
        del s[k]
    elif what == "rebuild":
        # a further instance of the present items and containers takes the other's place
        other = "q" if who == "p" else "p"
        cls = type(p)
        if p.container_height is not None:
            w.inst[other] = cls(items=p.items.deepcopy(), strip_pack_width=4)
        else:
            w.inst[other] = cls(p.containers.deepcopy(), p.items.deepcopy())


def affected(op):
    who, attr, what = op
    if what in ("take", "takesome"):
        return ("D",)
    if what == "rebuild":
        return ("q" if who == "p" else "p",)
    return (who,)


POOLS = {s: {x + tuple(suffix) for x in itertools.permutations(gen.FREE6)}
         for s, suffix in ((False, gen.SUFFIX), (True, gen.STRIP_SUFFIX))}


def solves(w, who, info, pools):
    p = w.inst[who]
    conts = [(k, v["W"], v["L"]) for k, v in p.containers.items()]
    strip = p.container_height is not None
    if strip:
        p.reset_container_height()
        conts = [(gen.STRIP_ID, 4, p.container_height)]
    its = [(k, v["w"], v["l"]) for k, v in p.items.items()]
    rot = p.settings.get("rotation", True)
    p.solve()
    want, _ = model.solve(conts, its, p.potential_points_strategy, rot, p.container_height if strip else None)
    want = {c: {r[0]: tuple(r[1:]) for r in rs} for c, rs in want.items()}
    if want != {c: {i: tuple(v) for i, v in s.items()} for c, s in p.solution.items()}:
        raise Violation("%s solves %s %s differently: %s, must be %s | %s" % (
            who, conts, its, p.solution, want, info))
    if w.kind != "low" and pools:
        got = [tuple(s) for s in p.get_strategies()]
        if len(got) != 720 or set(got) != POOLS[strip]:
            raise Violation("%s searches with the strategies %s.. | %s" % (who, got[:2], info))


# operations of one instance, interrupted at every line of the library by one of another
INTERRUPTED = ("solve", "two", "strip", "striplocal", "local", "hyper", "sort", "log", "low", "strategies", "build")
MEANWHILE = ("solve", "other", "strip", "local", "log", "low", "settings", "refused")


def party(kind):
    """(instance or None, operation)"""
    kw = {"items": copy.deepcopy(ITEMS), "settings": {"rotation": kind != "two"}}
    if kind == "other":
        kw["items"] = {"c": {"w": 1, "l": 1}, "a": {"w": 3, "l": 2}, "n": {"w": 1, "l": 1}}
    if kind in ("strip", "striplocal"):
        kw["strip_pack_width"] = 3
    else:
        kw["containers"] = copy.deepcopy(CONTS if kind in ("two", "local", "hyper") else {"A": CONTS["A"]})
    p = (hp.PointGenPack if kind == "low" else hp.HyperPack)(**kw)
    if kind == "strip":
        p.container_height = 4
    if kind == "low":
        p.potential_points_strategy = ("B", "A")
    if kind in ("log",):
        p.solve()
    if kind in ("strategies",):
        op = lambda: [tuple(x) for x in p.get_strategies()][::50]
    elif kind == "build":
        op = lambda: plain(hp.HyperPack(**kw).items)
    elif kind in ("local", "striplocal"):
        op = p.local_search
    elif kind == "hyper":
        op = lambda: p.hypersearch(_exhaustive=False)
    elif kind == "sort":
        op = lambda: (p.sort_items(("perimeter", False)), p.orient_items("long"))
    elif kind == "log":
        op = p.log_solution
    elif kind == "settings":
        op = lambda: setattr(p, "settings", {"rotation": False, "workers_num": 2, "max_time_in_seconds": 1})
    elif kind == "refused":
        def op():
            try:
                p.items["a"]["w"] = 0
            except hp.exceptions.DimensionsError as e:
                return str(e)
    else:
        op = p.solve
    return p, op


def seen(p, returned):
    return [returned, order(plain(p.items)), order(plain(p.containers)), trace.copy(p.solution),
            {k: list(v) for k, v in p.solution.items()}, dict(getattr(p, "obj_val_per_container", {})), p.container_height,
            p.container_min_height, p.potential_points_strategy, dict(p.settings), getattr(p, "best_strategy", None)]


PACKAGE = os.path.dirname(os.path.realpath(hp.__file__))


def interleaved(case, ctx):
    """Thread schedules of two instances: one preemption at every line, during which the other runs."""
    hp.constants.DEFAULT_POTENTIAL_POINTS_STRATEGY_POOL = (("B", "A"), gen.DEFAULT)
    p, op = party(case["a"])
    want_p = seen(p, op())
    q, other = party(case["b"])
    want_q = seen(q, other())
    k = step = 1
    while True:
        p, op = party(case["a"])
        q, other = party(case["b"])
        state = {"n": 0, "got": None}

        def local(frame, event, arg):
            if event == "line":
                state["n"] += 1
                if state["n"] == k:
                    sys.settrace(None)
                    state["where"] = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                    state["got"] = seen(q, other())
                    return None
            return local if state["n"] < k else None

        def enter(frame, event, arg):
            return local if os.path.dirname(os.path.realpath(frame.f_code.co_filename)) == PACKAGE else None

        sys.settrace(enter)
        try:
            returned = op()
        finally:
            sys.settrace(None)
        if state["got"] is None:
            break
        ctx.state()
        ctx.trans(2)
        ctx.validated()
        info = "%s interrupted at %s (line %d of its execution) by %s of another instance" % (
            case["a"], state["where"], k, case["b"])
        got = seen(p, returned)
        if got != want_p:
            raise Violation("the interrupted instance: %s, alone %s | %s" % (got, want_p, info))
        if state["got"] != want_q:
            raise Violation("the other instance: %s, alone %s | %s" % (state["got"], want_q, info))
        if k > 3000 and ctx.quick:
            step = 7
        k += step
    ctx.outcome((case["a"], case["b"], k))
    ctx.count("preemption points", k)


def run(case, ctx):
    if case["k"] == "interleaved":
        pool = hp.constants.DEFAULT_POTENTIAL_POINTS_STRATEGY_POOL
        try:
            return interleaved(case, ctx)
        finally:
            hp.constants.DEFAULT_POTENTIAL_POINTS_STRATEGY_POOL = pool
    ops = operations(bool(case["small"]))
    first = [ops[i] for i in case["first"]]
    pre = {"ps": ["p", None, "solve"], "qs": ["q", None, "local"]}
    pre = [pre[x] for x in case["pre"]]
    n = 0
    for rest in itertools.product(ops, repeat=case["depth"] - len(first)):
        w = World(case["k"])
        seq = first + list(rest)
        for i, op in enumerate(pre + seq):
            before = {x: w.snap(x) for x in ("G", "D", "d", "p", "q")}
            try:
                perform(w, op)
            except ERRORS as e:
                if op[0] in ("G", "D", "d"):
                    raise
                if op[2] in ("take", "takesome", "solve"):
                    raise Violation("%r | %s" % (e, seq[:i + 1]))
            for x, b in before.items():
                if x not in affected(op) and w.snap(x) != b:
                    raise Violation("%s changed %s from %s to %s | %s after %s" % (
                        op, NAMES[x], b, w.snap(x), case["k"], (pre + seq)[:i]))
            ctx.trans()
        info = "%s after %s" % (case["k"], pre + seq)
        n += 1
        if n % 4 == 1 or len(seq) < 3:
            solves(w, "p", info, n == 1)
            solves(w, "q", info, n == 1)
        ctx.state()
        ctx.validated()
        ctx.outcome(seq)


NAMES = {"G": "the given dictionaries", "D": "the copies", "d": "the given item", "p": "instance p", "q": "instance q"}

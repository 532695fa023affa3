import copy
import itertools

import gen
import mp
import structs
import trace
from core import Violation

import env

ID = "C19"
CPU_LIMIT = 400
PIN = True
BOUNDS = {
    "quick": "construction and assignment of every combination of 7-12 values per key; every history of <=2 out "
             "of 54 settings operations (assign, set key, delete key, update, validate, solve, local_search) "
             "and of 3 out of 27; HyperPack bin and strip, PointGenPack (rotation); subclasses with other defaults: "
             "the same values, histories of 2 out of 27; rotation (assigned, staged, validated) in the workers of "
             "parallel hypersearch; 1-360 workers",
    "thorough": "histories of 3 out of 54 and of 4 out of 27",
}
ORACLE = ("reference state machine; the values in force are measured: rotation by an item that only fits "
          "rotated, the limit by the number of evaluations under a virtual clock, workers_num by the "
          "number of worker processes of a simulated hypersearch")
NOTE = "None for rotation and workers_num and booleans for integers are left open."
hp = mp.hp
X = hp.exceptions
DEFAULT = (1, 60, True)
KEYS = ("workers_num", "max_time_in_seconds", "rotation")
GOOD = {"workers_num": [2, 3, 1, 1000, structs.Size.TWO, structs.Int(3)],
        "max_time_in_seconds": [5, 25, 60, 10**6, structs.Int(5)], "rotation": [False, True]}
BADV = {"workers_num": [0, -1, 1.5, "2", [2], 2.0] + gen.ODD, "max_time_in_seconds": [0, -3, 1.5, "60", [60], 60.0, None] + gen.ODD,
        "rotation": [0, 1, "True", 1.0, []] + gen.ODD}
POOL = mp.PERMS[:8]


def operations(small):
    ops = [["assign", {}], ["assign", {"rotation": False}], ["assign", {"workers_num": 3}],
           ["assign", {"max_time_in_seconds": 25}],
           ["assign", {"workers_num": 2, "max_time_in_seconds": 5, "rotation": False}],
           ["set", "rotation", False], ["set", "rotation", True], ["set", "workers_num", 2],
           ["set", "max_time_in_seconds", 5], ["del", "rotation"], ["del", "workers_num"],
           ["del", "max_time_in_seconds"], ["update", {"rotation": False, "workers_num": 3}], ["clear"],
           ["validate"], ["solve"], ["local"], ["items"], ["delattr"],
           ["assign", {"workers_num": 0}], ["assign", {"rotation": 1}], ["assign", {"max_time_in_seconds": 0}],
           ["assign", None], ["assign", [1]], ["set", "workers_num", -1], ["set", "rotation", "no"],
           ["assign", {"figure": {"show": False}}]]
    if not small:
        ops += [["assign", {"rotation": True, "max_time_in_seconds": 60}], ["set", "max_time_in_seconds", 25],
                ["set", "workers_num", 1000], ["set", "max_time_in_seconds", 1.5],
                ["assign", {"max_time_in_seconds": 5, "rotation": "x"}],
                ["assign", {"rotation": False, "workers_num": "2"}], ["assign", "settings"], ["assign", 7],
                ["assign", {"figure": {}}], ["set", "figure", {"show": True}],
                ["assign", {"figure": {"show": True}, "workers_num": 3, "rotation": False}]]
        ops += [["assign", {k: v}] for k in KEYS for v in GOOD[k][1:]]
        ops += [["set", k, v] for k in KEYS for v in BADV[k][2:4]]
    return ops


def cases(tier):
    q = tier == "quick"
    for kind in ("bin", "strip", "bin+", "strip+"):
        yield {"k": "parallel", "kind": kind}
    for kind in ("bin", "strip", "bin+"):
        for w in (1, 2, 3, 4, 8, 9, 12, 16, 24, 36, 72, 144) + (() if q else (18, 48)):
            yield {"k": "workers", "kind": kind, "w": w}
    for w in (120, 180, 240, 360):
        yield {"k": "workers", "kind": "bin", "w": w, "pool": 720}
    for kind in ("bin", "strip", "low", "bin+", "strip+", "low+"):
        for k in (KEYS if kind[:3] != "low" else KEYS[2:]):
            for i in range(len(GOOD[k] + BADV[k])):
                yield {"k": "values", "kind": kind, "key": k, "i": i}
        n, m = len(operations(False)), len(operations(True))
        if kind[-1] == "+" and q:
            for i in range(m):
                yield {"k": "history", "kind": kind, "small": 1, "first": [i], "depth": 2}
            continue
        for i in range(n):
            yield {"k": "history", "kind": kind, "small": 0, "first": [i], "depth": 2}
        if kind == "bin" or not q:
            for i, j in itertools.product(range(m), repeat=2):
                yield {"k": "history", "kind": kind, "small": 1, "first": [i, j], "depth": 3 if q else 4}
    if not q:
        for i, j in itertools.product(range(n), repeat=2):
            yield {"k": "history", "kind": "bin", "small": 0, "first": [i, j], "depth": 3}


def items():
    it = {"i0": {"w": 1, "l": 8}}
    it.update({"i%d" % k: {"w": 1, "l": 1} for k in range(1, 5)})
    return it


REC = trace.recorder(hp.HyperPack)


class Sub(hp.HyperPack):
    """The documented way of changing the defaults."""
    WORKERS_NUM_DEFAULT_VALUE = 3
    MAX_TIME_IN_SECONDS_DEFAULT_VALUE = 35
    ROTATION_DEFAULT_VALUE = False


class LowSub(hp.PointGenPack):
    ROTATION_DEFAULT_VALUE = False


SUBDEFAULT = (3, 35, False)
RECSUB = trace.recorder(Sub)


def make(kind, *settings):
    cls = hp.PointGenPack if kind == "low" else REC
    if kind[-1] == "+":
        kind = kind[:-1]
        cls = LowSub if kind == "low" else RECSUB
    if kind == "strip":
        p = cls(items=items(), strip_pack_width=8, **(dict(settings=settings[0]) if settings else {}))
        p.container_height = 4
        return p
    return cls({"c": {"W": 8, "L": 4}}, items(), *settings)


def effective(p, kind):
    """What is in force, by behaviour."""
    kind = kind.rstrip("+")
    if kind == "low":
        p.solve()
        return (None, None, "i0" in p.solution["c"])
    p.log, T0 = [], 1_000_000.0

    def hook(k):
        env.CLOCK.now = T0 + 10 * k

    p.hook = hook
    if kind == "strip":
        p.reset_container_height()
        p.container_height = 4
        p.container_min_height = 4
    env.CLOCK.start(T0)
    try:
        p.local_search(throttle=False)
    finally:
        env.CLOCK.stop()
    nodes = len(p.log) - 1
    rot = "i0" in p.log[0].solution[next(iter(p.log[0].solution))]
    p.log = p.hook = None
    limit = 10 * nodes
    table = {st: 0.3 for st in POOL}
    mp.set_pool(POOL)
    with mp.Stub(table, kind == "strip") as s:
        s.__dict__["solution"] = lambda st: {s.cid: {"i0": [0, 0, 1, 8]}}
        sim = mp.simmp.Sim(mp.ls.Choices(), 0)
        if p.settings.get("workers_num") == 1000:
            mp.TAGGED.records.clear()
        sim.run(lambda: p.hypersearch(sorting_by=None, orientation=None, _exhaustive=False))
    return (len(sim.procs) - 1 or 1, limit, rot)


def expected(eff, kind):
    w, t, r = eff
    if kind.rstrip("+") == "low":
        return (None, None, r)
    # 8 strategies: at most 8 workers; 10 neighbours, 10 seconds each
    return ({1000: 8}.get(w, -(-8 // -(-8 // w))), min(100, -(-t // 10) * 10), r)


def valid(d, kind):
    """None: left open."""
    if not isinstance(d, dict):
        return False
    for k, v in d.items():
        if k not in KEYS or kind.rstrip("+") == "low" and k != "rotation":
            continue
        if k == "rotation":
            if not isinstance(v, bool):
                return False
        elif not isinstance(v, int) or v < 1:
            return False
    return True


def force(d, kind):
    return tuple(d.get(k, x) for k, x in zip(KEYS, SUBDEFAULT if kind[-1] == "+" else DEFAULT))


def final(p, eff, kind, d, info):
    if eff is None:
        return
    want = expected(eff, kind)
    got = effective(p, kind)
    if got != want:
        raise Violation("in force are (workers, time limit rounded up to 10 s, rotation) = %s, must be %s | %s" % (
            got, want, info))
    if d is not None and p.settings != d:
        raise Violation("solving changed the settings from %s to %s | %s" % (d, p.settings, info))


def values(case, ctx):
    kind, key = case["kind"], case["key"]
    vals = GOOD[key] + BADV[key]
    v = vals[case["i"]]
    others = [k for k in KEYS if k != key]
    for a, b in itertools.product([None] + GOOD[others[0]][:2], [None] + GOOD[others[1]][:2]):
        d = {k: x for k, x in zip(others, (a, b)) if x is not None}
        d[key] = v
        for order in (d, dict(reversed(list(d.items())))):
            for how in ("construct", "assign", "key"):
                got, p = None, None
                s = copy.deepcopy(order)
                try:
                    if how == "construct":
                        p = make(kind, s)
                    elif how == "assign":
                        p = make(kind)
                        p.settings = s
                    else:
                        p = make(kind, {"rotation": False})
                        p.settings.clear()
                        p.settings.update(s)
                        p.validate_settings()
                except Exception as e:
                    got = e
                ok = valid(d, kind)
                info = "%s %s %s" % (kind, how, order)
                ctx.state()
                ctx.trans()
                ctx.validated()
                if ok and got is not None or not ok and not isinstance(got, X.SettingsError):
                    raise Violation("%s, must be %s | %s" % (
                        "accepted" if got is None else "refused with %r" % got,
                        "accepted" if ok else "refused with SettingsError", info))
                ctx.outcome(info)
                if ok:
                    final(p, force(d, kind), kind, d, info)


def workers(case, ctx):
    """The number of workers in force, also far above the number of CPUs."""
    pool = list(itertools.permutations(gen.CLASSES, 3))[:case.get("pool", 144)]
    mp.set_pool(pool)
    strip = case["kind"] == "strip"
    for how in ("construct", "assign", "key"):
        mp.TAGGED.records.clear()
        with mp.Stub({st: 0.0001 if strip else 0.01 for st in pool}, strip) as s:
            p = s.problem(case["w"] if how == "construct" else 5)
            if case["kind"] == "bin+":
                p = Sub(items={"i0": {"w": 1, "l": 1}}, containers={"c": {"W": 10, "L": 10}},
                        settings={"workers_num": case["w"] if how == "construct" else 5})
            d = {"workers_num": case["w"], "max_time_in_seconds": 10**6}
            if how == "assign":
                p.settings = d
            elif how == "key":
                p.settings.update(d)
                p.validate_settings()
            sim = mp.simmp.Sim(mp.ls.Choices(), 0, max_ops=10**6)
            sim.run(lambda: p.hypersearch(sorting_by=None, orientation=None, _exhaustive=False))
        got = len(sim.procs) - 1 or 1
        ctx.state()
        ctx.trans(len(s.ran))
        ctx.validated()
        ctx.outcome((got, how))
        if got != case["w"]:
            raise Violation("%d workers in force, %d searched the strategies | %s %s" % (case["w"], got, case["kind"], how))


def parallel(case, ctx):
    """The values in force reach the workers: an item that only fits rotated, real workers."""
    kind = case["kind"]
    plus = kind[-1] == "+"
    mp.set_pool(POOL[:3])
    base = {"max_time_in_seconds": 10**6, "workers_num": 2}
    for first in ({}, {"rotation": False}, {"rotation": True}):
        for staged in (None, False, True, "del", "bad"):
            for validate in (False, True):
                if validate and staged in (None, "bad"):
                    continue
                d = dict(base, **first)
                cls = Sub if plus else hp.HyperPack
                where = {"strip_pack_width": 8} if kind.startswith("strip") else {"containers": {"c": {"W": 8, "L": 4}}}
                p = cls(items={"i0": {"w": 1, "l": 8}, "i1": {"w": 2, "l": 1}, "i2": {"w": 1, "l": 1}}, settings=dict(d), **where)
                if kind.startswith("strip"):
                    p.container_height = p.container_min_height = 4
                rot = force(d, kind)[2]
                if staged == "del":
                    p.settings.pop("rotation", None)
                    d.pop("rotation", None)
                elif staged is not None:
                    p.settings["rotation"] = d["rotation"] = "no" if staged == "bad" else staged
                if validate:
                    p.validate_settings()
                    rot = force(d, kind)[2]
                sim = mp.simmp.Sim(mp.ls.Choices(), 0)
                mp.TAGGED.records.clear()
                info = "%s settings %s, then rotation %s%s" % (kind, first, staged, " validated" if validate else "")
                sim.run(lambda: p.hypersearch(sorting_by=None, orientation=None, _exhaustive=False))
                placed = {i for c in p.solution.values() for i in c}
                if ("i0" in placed) != rot:
                    raise Violation("rotation %s in force, parallel hypersearch gives %s | %s" % (rot, p.solution, info))
                if p.settings != d:
                    raise Violation("parallel hypersearch changed the settings from %s to %s | %s" % (d, p.settings, info))
                ctx.state()
                ctx.trans(sim.points)
                ctx.validated()


def history(case, ctx):
    kind = case["kind"]
    ops = operations(bool(case["small"]))
    first = [ops[i] for i in case["first"]]
    for rest in itertools.product(ops, repeat=case["depth"] - len(first)):
        seq = first + list(rest)
        for start in (None, {"rotation": False, "max_time_in_seconds": 25, "workers_num": 2}):
            one(kind, seq, start, ctx)


def one(kind, seq, start, ctx):
    p = make(kind, copy.deepcopy(start)) if start is not None else make(kind)
    d = dict(start or {})
    eff = force(d, kind)
    p.solve()
    for n, op in enumerate(seq):
        info = "%s settings %s after %s" % (kind, start, seq[:n + 1])
        a = copy.deepcopy(op[1:])
        if d is None and op[0] not in ("assign", "solve", "delattr"):
            return
        if op[0] in ("del",) and a[0] not in d:
            return
        if op[0] in ("solve", "local", "items") and eff is None:
            return
        sol, val = trace.copy(p.solution), dict(p.obj_val_per_container)
        got, want = None, None
        try:
            if op[0] == "assign":
                ok = valid(a[0], kind)
                want = None if ok else X.SettingsError
                d, eff = (dict(a[0]), force(a[0], kind)) if ok else (None, None)
                p.settings = a[0]
            elif op[0] == "set":
                d[a[0]] = a[1]
                p.settings[a[0]] = a[1]
            elif op[0] == "del":
                del d[a[0]]
                del p.settings[a[0]]
            elif op[0] == "update":
                d.update(a[0])
                p.settings.update(a[0])
            elif op[0] == "clear":
                d.clear()
                p.settings.clear()
            elif op[0] == "validate":
                ok = valid(d, kind)
                want = None if ok else X.SettingsError
                eff = force(d, kind) if ok else None
                p.validate_settings()
            elif op[0] == "delattr":
                want = X.SettingsError
                del p.settings
            elif op[0] == "solve":
                p.solve()
            elif op[0] == "local":
                if kind.rstrip("+") != "low":
                    p.local_search()
            elif op[0] == "items":
                p.items["i1"]["w"] = 1
        except Exception as e:
            got = e
        if want is None and got is not None or want is not None and not isinstance(got, want):
            raise Violation("%s, expected %s | %s" % (
                "accepted" if got is None else "refused with %r" % got, want or "acceptance", info))
        if op[0] not in ("solve", "local", "items") and (
                p.solution != sol or p.obj_val_per_container != val):
            raise Violation("the settings operation changed the solution from %s to %s | %s" % (sol, p.solution, info))
        if d is not None and p.settings != d:
            raise Violation("settings are %s, must be %s | %s" % (p.settings, d, info))
        ctx.trans()
    ctx.state()
    ctx.validated()
    ctx.outcome((eff, repr(d)))
    final(p, eff, kind, d, "%s settings %s after %s" % (kind, start, seq))


def run(case, ctx):
    globals()[case["k"]](case, ctx)

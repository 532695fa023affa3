import copy
import itertools
import logging
import os
import sys
import tempfile
from unittest import mock

import mp
import env
import gen
import structs
from checks import c18, c20
from core import Violation

ID = "C28"
CPU_LIMIT = 400
PIN = True
BOUNDS = {
    "quick": "every history of <=2 out of ~85 operations on items, containers and items of a strip, of 2 out of ~90 on "
             "a strip's container and heights, both solver classes; constructors with every combination of valid and "
             "invalid containers, items, settings, strip width; ~300 settings and figure settings through 3 ways; "
             "~3000 strategies; every export call failing with 10 exceptions; missing or old plotly and kaleido; all "
             "of 1-3 workers failing at every operation; 40 accepted solving operations",
    "thorough": "histories of 3, the middle one (and, for PointGenPack or solved instances, the last one) out of ~45, the others out of ~120",
}
ORACLE = ("captured log records: a refusal is of the documented class of hyperpack.exceptions and leaves exactly one "
          "ERROR record, on the logger 'hyperpack', with the exception's message; acceptance leaves none")
NOTE = ("refusals by other exceptions (KeyError of an unknown id, NotImplementedError of an unknown criterion) are no "
        "library errors. ERROR records of failed workers are additional ones.")
hp = env.hyperpack(quiet=False)
X = hp.exceptions
LIB = tuple(getattr(X, n) for n in ("ItemsError", "ContainersError", "DimensionsError", "SettingsError",
                                    "FigureExportError", "MultiProcessError", "PotentialPointsError"))


class Records(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.got = []

    def emit(self, r):
        self.got.append((r.name, r.levelno, r.getMessage(), mp.simmp.pid()))


REC = Records()


def attach():
    for lg in (hp.loggers.hyperLogger, hp.loggers.logger):
        lg.handlers[:] = [REC]
        lg.setLevel(logging.INFO)
        lg.propagate = False
    hp.loggers.logger.setLevel(logging.WARNING)


attach()


def setup(ctx):
    attach()


def audit(fn, info, want=None):
    """Performs an operation; want: class names of the expected refusal, () for acceptance or None."""
    REC.got.clear()
    exc = None
    try:
        fn()
    except Violation:
        raise
    except Exception as e:
        exc = e
    errors = [r for r in REC.got if r[1] >= logging.ERROR]
    if exc is None:
        if want:
            raise Violation("accepted, must be refused with %s | %s" % (want, info))
        if errors:
            raise Violation("accepted, but the error %s is logged | %s" % (errors, info))
        return None
    if want == ():
        raise Violation("refused with %r | %s" % (exc, info))
    if want and not any(isinstance(exc, getattr(X, n, ()) or ()) or type(exc).__name__ == n for n in want):
        raise Violation("%r instead of %s | %s" % (exc, want, info))
    if isinstance(exc, LIB):
        if type(exc) not in LIB:
            raise Violation("%r is of no documented class | %s" % (exc, info))
        if len(errors) != 1 or errors[0][1] != logging.ERROR or errors[0][2] != str(exc) or errors[0][0] != "hyperpack":
            raise Violation("%r leaves the error records %s | %s" % (exc, errors, info))
        if not str(exc) or str(exc) == "None":
            raise Violation("%s without message | %s" % (type(exc), info))
    elif not isinstance(exc, (KeyError, NotImplementedError)):
        raise Violation("%r is no library error | %s" % (exc, info))
    return exc


def cases(tier):
    q = tier == "quick"
    depth = 2 if q else 3
    for where in ("items", "containers", "strip"):
        n = len(structs.alphabet("containers" if where == "containers" else "items"))
        for cls in ("HyperPack", "PointGenPack"):
            for i in range(n):
                for solved in (0, 1):
                    yield {"k": "structure", "where": where, "cls": cls, "first": i, "depth": depth, "solved": solved}
    for cls in ("HyperPack", "PointGenPack"):
        for i in range(len(c18.operations(2, False))):
            yield {"k": "strip", "cls": cls, "first": i, "depth": depth}
        for i in range(len(CONTS)):
            yield {"k": "construct", "cls": cls, "i": i}
        yield {"k": "settings", "cls": cls}
    for kind in ("HyperPack", "PointGenPack", "strip"):
        yield {"k": "strategies", "kind": kind}
        for size in (1, 2):
            for i in range(len(gen.CLASSES) + len(c20.WRONG)):
                yield {"k": "tuples", "kind": kind, "size": size, "i": i}
    yield {"k": "figure_settings"}
    yield {"k": "figures"}
    yield {"k": "libraries"}
    for strip in (0, 1):
        yield {"k": "accepted", "strip": strip}
    for strip in (0, 1):
        for workers, n in ((2, 2), (2, 3), (3, 3), (4, 4)):
            for first in range(5 if n < 4 else 3):
                yield {"k": "quiet", "workers": workers, "n": n, "strip": strip, "first": first}
    for workers, n in ((1, 1), (2, 2), (2, 4), (3, 3)):
        for how in ("kill", "raise"):
            for strip in (0, 1):
                yield {"k": "workers", "workers": workers, "n": n, "how": how, "strip": strip}


START = {"items": {"a": {"w": 1, "l": 2}, "b": {"w": 2, "l": 1}},
         "containers": {"a": {"W": 3, "L": 2}, "b": {"W": 2, "L": 2}}}
KEYS = {"items": ("w", "l"), "containers": ("W", "L")}
ERR = {"items": "ItemsError", "containers": "ContainersError"}


def make(cls, where):
    cls = getattr(hp, cls)
    if where == "strip":
        return cls(items=copy.deepcopy(START["items"]), strip_pack_width=3)
    return cls(items=copy.deepcopy(START["items"]), containers=copy.deepcopy(START["containers"]))


def structure(case, ctx):
    attr = "containers" if case["where"] == "containers" else "items"
    ops = structs.alphabet(attr)
    small = structs.alphabet(attr, True)
    last = ops if case["depth"] < 3 or (case["cls"], case["solved"]) == ("HyperPack", 0) else small
    for rest in itertools.product(*[small] * (case["depth"] - 2), last):
        seq = [ops[case["first"]]] + list(rest)
        p = make(case["cls"], case["where"])
        for i, op in enumerate(seq):
            info = "%s %s %s after %s" % (case["cls"], case["where"], op, seq[:i])
            ends, errors = structs.model(op, structs.plain(getattr(p, attr)), KEYS[attr], ERR[attr])
            if case["solved"]:
                p.solve()
            audit(lambda: structs.apply(op, p, attr), info, () if errors is None else errors)
            ctx.trans()
        ctx.state()
        ctx.validated()
        ctx.outcome(seq)


def strip(case, ctx):
    ops = c18.operations(2, False)
    cls = getattr(hp, case["cls"])
    for rest in itertools.product(ops, repeat=case["depth"] - 1):
        seq = [ops[case["first"]]] + list(rest)
        p = cls(items=structs.plain(c18.ITEMS), strip_pack_width=2)
        for i, op in enumerate(seq):
            def do():
                if op[0] == "c":
                    structs.apply(op[1:], p, "containers")
                elif op[0] == "h":
                    p.container_height = op[1]
                elif op[0] == "m":
                    p.container_min_height = op[1]
                elif op[0] == "delh":
                    del p.container_height
                elif op[0] == "delm":
                    del p.container_min_height
                elif op[0] == "reset":
                    p.reset_container_height()
                elif op[0] == "solve" or not hasattr(p, "local_search"):
                    p.solve()
                else:
                    p.local_search()
            audit(do, "strip %s after %s" % (op, seq[:i]),
                  () if op[0] in ("reset", "solve", "local") else ("DimensionsError",) if op[0] in ("delh", "delm") else None)
            ctx.trans()
        ctx.state()
        ctx.validated()
        ctx.outcome(seq)


N = "<none>"
CONTS = [{"a": {"W": 3, "L": 2}}, None, {}, [], "x", {1: {"W": 1, "L": 1}}, {"a": None}, {"a": {}}, {"a": {"W": 1}},
         {"a": {"W": 1, "L": 0}}, {"a": {"W": 1, "l": 1}}, {"a": {"W": 1, "L": 1}, None: {"W": 1, "L": 1}},
         {"a": {"W": 1.5, "L": 1}}, {"a": {"W": 1, "L": 1}, "b": [1, 1]}]
ITEMS = [{"a": {"w": 3, "l": 2}}, None, {}, [], "x", {1: {"w": 1, "l": 1}}, {"a": None}, {"a": {}}, {"a": {"w": 1}},
         {"a": {"w": 1, "l": 0}}, {"a": {"w": 1, "L": 1}}, {"a": {"w": 1, "l": 1}, None: {"w": 1, "l": 1}},
         {"a": {"w": 1, "l": "1"}}, {"a": {"w": 1, "l": 1}, "b": 1}]
SETTINGS = [N, {}, {"rotation": True}, {"rotation": 1}, {"workers_num": 0}, {"max_time_in_seconds": "1"}, "str", [1],
            {"rotation": "x", "workers_num": -1}, {"figure": {"show": True}}, {"figure": 1}, {"figure": {"show": 1}},
            {"max_time_in_seconds": 5, "workers_num": 1.5}, 7]
WIDTHS = [N, 1, 5, 0, -1, 1.5, "3", [3]]


def good_set(s, keys):
    return isinstance(s, dict) and s and all(
        isinstance(k, str) and isinstance(d, dict) and set(d) == set(keys) and
        all(type(v) is int and v > 0 for v in d.values()) for k, d in s.items())


def good_settings(s, cls):
    if s == N:
        return True
    if not isinstance(s, dict):
        return False
    for k, v in s.items():
        if k == "rotation":
            ok = type(v) is bool
        elif k == "figure":
            ok = isinstance(v, dict) and all(type(x) is bool for x in v.values())
        else:
            ok = cls == "PointGenPack" or type(v) is int and v > 0
        if not ok:
            return False
    return True


def construct(case, ctx):
    cls = getattr(hp, case["cls"])
    c = CONTS[case["i"]]
    for it, st, w in itertools.product(ITEMS, SETTINGS, WIDTHS):
        kw = {"containers": copy.deepcopy(c), "items": copy.deepcopy(it)}
        if st != N:
            kw["settings"] = copy.deepcopy(st)
        if w != N:
            kw["strip_pack_width"] = w
        ok_c = good_set(c, "WL") if w == N else c is None
        ok_w = w == N or type(w) is int and w > 0
        oks = {"c": ok_c, "i": good_set(it, "wl"), "s": good_settings(st, case["cls"]), "w": ok_w}
        bad = [k for k, v in oks.items() if not v]
        want = {"s": ("SettingsError",), "i": ("ItemsError", "DimensionsError"), "w": ("DimensionsError",),
                "c": ("ContainersError", "DimensionsError")}.get(bad[0]) if len(bad) == 1 else None
        if bad and want is None:
            want = tuple(x.__name__ for x in LIB)
        audit(lambda: cls(**kw), "%s(%s)" % (case["cls"], kw), want or ())
        ctx.state()
        ctx.trans()
        ctx.validated()
        ctx.outcome((kw, bad))


def settings(case, ctx):
    low = case["cls"] == "PointGenPack"
    vals = {"rotation": [True, False, 0, 1, "True", [], 1.0], "workers_num": [1, 2, 10 ** 4, 0, -1, 1.5, "2", []],
            "max_time_in_seconds": [1, 60, 0, -1, 1.5, "2", [], None]}
    for a, b, c in itertools.product(*([N] + v for v in vals.values())):
        s = {k: v for k, v in zip(vals, (a, b, c)) if v != N}
        ok = good_settings(s, case["cls"])
        for how in (0, 1):
            p = make(case["cls"], "items")

            def do():
                if how:
                    p.settings = dict(s)
                else:
                    p.settings.update(s)
                    p.validate_settings()
            audit(do, "%s settings %s" % (case["cls"], s), () if ok else ("SettingsError",))
            audit(p.solve, "solve", ()) if ok else None
            ctx.trans()
        ctx.state()
        ctx.validated()
    for s in (None, [], "x", 5, (), {1}, 1.5):
        p = make(case["cls"], "items")
        audit(lambda: setattr(p, "settings", s), "%s settings %r" % (low, s), ("SettingsError",))
    p = make(case["cls"], "items")
    audit(lambda: delattr(p, "settings"), "del settings", ("SettingsError",))
    # some workers more than processors: a warning only
    p = make(case["cls"], "items")
    audit(lambda: setattr(p, "settings", {"workers_num": 10 ** 5}), "many workers", ())


def strategies(case, ctx):
    p = c20.make(case["kind"])
    vals = list(c20.non_tuples())
    for base in gen.FULL[:3] + gen.SINGLES[:4]:
        for pos in range(len(base) + 1):
            for w in list(gen.CLASSES) + c20.WRONG:
                vals += [base[:pos] + (w,) + base[pos + 1:], base[:pos] + (w,) + base[pos:]]
    for v in vals:
        one_strategy(p, v, ctx)
    for _ in range(2):
        audit(lambda: delattr(p, "potential_points_strategy"), "del strategy", ("PotentialPointsError",))
        p.solve()


def one_strategy(p, v, ctx):
    audit(lambda: setattr(p, "potential_points_strategy", v), "strategy %r" % (v,),
          () if c20.ok(v) else ("PotentialPointsError",))
    ctx.state()
    ctx.trans()
    ctx.validated()


def tuples(case, ctx):
    p = c20.make(case["kind"])
    first = (list(gen.CLASSES) + c20.WRONG)[case["i"]]
    for v in c20.values(None, case["size"], first):
        one_strategy(p, v, ctx)
        ctx.outcome(v)


def solved(n=2, **settings):
    p = hp.HyperPack(containers={"c%d" % i: {"W": 3, "L": 2} for i in range(n)},
                     items={"i%d" % i: {"w": 2, "l": 1} for i in range(7)}, settings=settings)
    p.solve()
    return p


def figure_settings(case, ctx):
    from checks import c24
    attach()
    c24.setup(ctx)
    d = c24.DIR
    try:
        for base in c24.BASES.values():
            vals = dict({k: c24.M for k in c24.KEYS}, **base)
            for n in (1, 2):
                for keys in itertools.combinations(c24.KEYS, n):
                    for combo in itertools.product(*(c24.VALS[k][:: 1 if n == 1 else 2] for k in keys)):
                        v = dict(vals, **dict(zip(keys, combo)))
                        if v["file_name"] is None:
                            continue
                        ok = all(c24.good(k, v[k], v["type"]) for k in c24.KEYS)
                        how = (0, 1, 2) if n == 1 else (1,)
                        for h in how:
                            fig = c24.build(v)
                            kw = dict(containers={"c": {"W": 3, "L": 2}}, items={"i": {"w": 2, "l": 1}})
                            p = hp.HyperPack(**kw)

                            def do():
                                if h == 0:
                                    hp.HyperPack(settings={"figure": fig}, **kw)
                                elif h == 1:
                                    p.settings = {"figure": fig}
                                else:
                                    p.settings["figure"] = fig
                                    p.validate_settings()
                            audit(do, str(fig)[:500], () if ok else ("SettingsError",))
                            ctx.trans()
                        ctx.state()
                        ctx.validated()
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


ERRORS = [OSError("disk full"), ValueError("bad %s %d"), RuntimeError(), KeyError("format"), ValueError("{} {0} {x}"),
          PermissionError(13, "denied"), ValueError("two\nlines"), OSError("x" * 5000), ValueError("line\n" * 99), X.SettingsError]


def figures(case, ctx):
    import plotly.io as pio
    d = tempfile.mkdtemp(prefix="hpmc-c28-")
    saved = pio.write_html, pio.write_image, pio.show
    try:
        for n, kind, show in itertools.product((1, 2, 3), ("html", "image"), (None, True)):
            fig = {"export": {"type": kind, "path": d, "format": "png"}}
            if show:
                fig["show"] = True
            p = solved(n, figure=fig)
            for at in [None] + list(range(n)):
                for e in ERRORS if at is not None else [None]:
                    calls = []

                    def write(*a, **k):
                        calls.append(1)
                        if len(calls) - 1 == at:
                            raise e if isinstance(e, Exception) else TypeError(str(e))
                    pio.write_html = pio.write_image = write
                    pio.show = lambda *a, **k: None
                    audit(p.create_figure, "export call %s of %d fails with %r" % (at, n, e),
                          () if at is None else ("FigureExportError",))
                    ctx.state()
                    ctx.trans()
                    ctx.validated()
            p.items["i0"]["w"] = 1
            audit(p.create_figure, "no solution", ())
        os.rmdir(d)
        pio.write_html = saved[0]
        p.solve()
        p.settings["figure"].pop("show", None)
        p.settings["figure"]["export"]["type"] = "html"
        audit(p.create_figure, "directory vanished", ("FigureExportError",))
        os.mkdir(d)
        p = solved(2)
        audit(p.create_figure, "nothing to do", ())
        audit(lambda: p.create_figure(show=True), "show", ())
    finally:
        pio.write_html, pio.write_image, pio.show = saved
        os.rmdir(d) if os.path.isdir(d) else None


def libraries(case, ctx):
    import kaleido
    import plotly
    import plotly.io as pio
    d = tempfile.mkdtemp(prefix="hpmc-c28-")
    show = pio.show
    pio.show = lambda *a, **k: None
    try:
        for pl, ka in itertools.product(("5.24.1", "5.13.0", "6.0.0", None), ("0.2.1", "0.2.0", "0.3.0", None)):
            mods = {}
            if pl is None:
                mods["plotly"] = None
            if ka is None:
                mods["kaleido"] = None
            with mock.patch.dict(sys.modules, mods), mock.patch.object(plotly, "__version__", pl), \
                    mock.patch.object(kaleido, "__version__", ka):
                for fig, image in (({"show": True}, 0), ({"export": {"type": "html", "path": d}}, 0),
                                   ({"export": {"type": "image", "path": d, "format": "svg"}}, 1)):
                    ok = pl == "5.24.1" and (not image or ka == "0.2.1")
                    audit(lambda: solved(1, figure=copy.deepcopy(fig)), "plotly %s kaleido %s %s" % (pl, ka, fig),
                          () if ok else ("SettingsError",))
                    ctx.state()
                    ctx.trans()
                    ctx.validated()
                p = solved(1)
                audit(lambda: p.create_figure(show=True), "plotly %s" % pl, () if pl == "5.24.1" else ("SettingsError",))
    finally:
        pio.show = show
        os.rmdir(d)


def accepted(case, ctx):
    for rotation, throttle, orientation, sorting in itertools.product(
            (True, False), (True, False), ("wide", "long", None, "bad"), (("area", True), ("perimeter", False), None)):
        kw = dict(settings={"rotation": rotation}, items={"i%d" % i: {"w": 2, "l": 1 + i % 2} for i in range(5)})
        if case["strip"]:
            p = hp.HyperPack(strip_pack_width=4, **kw)
        else:
            p = hp.HyperPack(containers={"c": {"W": 3, "L": 3}, "d": {"W": 1, "L": 1}}, **kw)
        info = (case, rotation, throttle, orientation, sorting)
        for fn in (p.log_solution, p.create_figure, lambda: p.sort_items(sorting_by=sorting) if sorting else None,
                   lambda: p.orient_items(orientation), p.solve, p.log_solution, p.local_search,
                   lambda: p.local_search(throttle=throttle), p.create_figure, p.log_solution,
                   lambda: p.hypersearch(orientation=orientation, sorting_by=sorting, throttle=throttle,
                                         _exhaustive=False) if throttle else None,
                   p.reset_container_height, lambda: p.solve(sequence=["i2", "i0"]), p.log_solution,
                   lambda: str(p.items), lambda: str(p.containers)):
            audit(fn, info, ())
            ctx.trans()
        e = audit(lambda: p.sort_items(("unknown", True)), info, ("NotImplementedError",))
        ctx.state()
        ctx.validated()
        ctx.outcome((info, repr(e)))


def workers(case, ctx):
    pool = mp.PERMS[:case["n"]]
    mp.set_pool(pool)
    table = {st: 0.3 + 0.1 * i for i, st in enumerate(pool)}
    with mp.Stub(table, bool(case["strip"])) as s:
        def go(plan):
            s.ran.clear()
            prob = s.problem(max(2, case["workers"]))
            sim = mp.simmp.Sim(mp.ls.Choices(), 0, plan, max_ops=10 ** 6)
            sim.run(lambda: prob.hypersearch(_exhaustive=False))
            return sim, prob
        attach()
        REC.got.clear()
        sim, _ = go(None)
        if any(r[1] >= logging.ERROR for r in REC.got):
            raise Violation("no worker fails, but errors are logged: %s" % REC.got)
        ops = {q.pid: q.ops for q in sim.procs[1:]}
        for plan in itertools.product(*[[(v, o) for o in range(1, n + 1)] for v, n in ops.items()]):
            plan = {v: (case["how"], o) for v, o in plan}
            REC.got.clear()
            exc = None
            try:
                go(plan)
            except Exception as e:
                exc = e
            ctx.state()
            ctx.trans()
            ctx.validated()
            ctx.outcome(repr(plan))
            errors = [r for r in REC.got if r[1] >= logging.ERROR]
            if exc is None:
                continue      # a worker had delivered its result
            if type(exc) is not X.MultiProcessError:
                raise Violation("%r | faults %s" % (exc, plan))
            mine = [r for r in errors if r[2] == str(exc)]
            if len(mine) != 1 or mine[0][0] != "hyperpack":
                raise Violation("%r leaves the error records %s | faults %s" % (exc, errors, plan))


def quiet(case, ctx):
    """No worker fails: nothing is logged as an error, whatever the workers find."""
    pool = mp.PERMS[:case["n"]]
    mp.set_pool(pool)
    vals = (0, 0.005, 0.01, 0.3, 1.0) if case["n"] < 4 else (0, 0.01, 0.3)
    for tab in itertools.product([vals[case["first"] % len(vals)]], *[vals] * (case["n"] - 1)):
        with mp.Stub(dict(zip(pool, tab)), bool(case["strip"])) as s:
            attach()
            for ch in mp.ls.Choices():
                prob = s.problem(case["workers"])
                sim = mp.simmp.Sim(ch, 0, max_ops=10 ** 6)
                audit(lambda: sim.run(lambda: prob.hypersearch(_exhaustive=False)),
                      "values %s, %d workers" % (tab, case["workers"]), ())
                ctx.trans()
        ctx.state()
        ctx.validated()
        ctx.outcome(tab)
    for dims in QUIET:
        for conts in ([(2, 2)], [(1, 1)], [(4, 4)], [(1, 1), (3, 3)]):
            items = gen.ids(dims)
            kw = {"strip_pack_width": conts[0][0]} if case["strip"] else {
                "containers": {"c%d" % i: {"W": a, "L": b} for i, (a, b) in enumerate(conts)}}
            p = hp.HyperPack(items=items, settings={"workers_num": case["workers"]}, **kw)
            sim = mp.simmp.Sim(mp.ls.Choices(), 0, max_ops=10 ** 6)
            audit(lambda: sim.run(lambda: p.hypersearch(_exhaustive=False)), "%s, %d workers" % (kw, case["workers"]), ())
            audit(p.log_solution, "log_solution", ())
            ctx.trans()
        ctx.state()


QUIET = [[(1, 1)], [(5, 5)], [(2, 2)], [(1, 2), (2, 1)], [(2, 2), (2, 2)], [(9, 1), (1, 9)], [(1, 1), (1, 2), (3, 3)]]


def run(case, ctx):
    attach()
    globals()[case["k"]](case, ctx)

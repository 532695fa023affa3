import itertools
import logging
import os
import shutil
import tempfile
from unittest import mock

import env
import gen
import packspace as ps
import trace
from core import Violation

ID = "C23"
BOUNDS = {
    "quick": "20 solutions (1-3 containers, empty containers, strips with and without minimum height and without "
             "items, 1-120 items, up to 2500 items in a light stand-in of a figure) x every combination of show setting, show argument "
             "and export (none, html, 5 image formats, with and without file name and size); every "
             "export call failing with every one of 6 exception types; every history of <=3 of figure, "
             "settings and solving operations",
    "thorough": "histories of 4, 60 solutions",
}
ORACLE = ("real plotly figures handed to recording stand-ins of write_html, write_image and show: rectangles, "
          "labels, paths and sizes against solution and settings")
NOTE = ("plotly itself is trusted; the files of html exports are written for real in a scratch directory in "
        "part of the cases, images are not rendered. A solution of more than 1000 items uses a figure stand-in.")
hp = env.hyperpack(quiet=False)
import plotly                     # noqa: E402
import plotly.graph_objects as go  # noqa: E402
import plotly.io as pio           # noqa: E402

DIR = None  # within the shard's scratch directory, which is removed by core
SHOWS = (None, True, False)
FORMATS = ("pdf", "png", "jpeg", "webp", "svg")


class Odd(Exception):
    pass


ERRORS = (OSError("disk full"), ValueError("bad"), RuntimeError(), KeyError("format"), Odd("{}"), PermissionError(13, "denied"))


def setup(ctx):
    global DIR
    cwd = os.getcwd()
    DIR = tempfile.mkdtemp(prefix="hpmc-c23-", dir=cwd if "/hpmc-" in cwd else None)


def problems(q):
    A = [(1, 2), (2, 1), (2, 2)]
    out = [({"conts": [(3, 3)]}, A), ({"conts": [(2, 2), (3, 1)]}, A), ({"conts": [(1, 1), (4, 4), (2, 2)]}, A),
           ({"conts": [(3, 3), (2, 2)]}, [(1, 1)]), ({"conts": [(2, 2)]}, [(5, 5)]),
           ({"conts": [(9, 7)]}, [(1, 3), (4, 1), (2, 2), (3, 3), (1, 1), (5, 2)]),
           ({"conts": [(100, 45)]}, [(30, 20), (7, 40), (50, 3)]),
           ({"strip": 1, "W": 3}, A), ({"strip": 1, "W": 2, "min_height": 6}, A),
           ({"strip": 1, "W": 3, "height": 2}, [(3, 3)]), ({"strip": 1, "W": 3, "height": 4, "min_height": 3}, [(4, 4)]),
           ({"strip": 1, "W": 4, "height": 2}, A), ({"conts": [(10, 8)]}, [(1, 2)] * 40),
           ({"conts": [(700, 400), (300, 2)]}, [(1, 1), (1, 1), (300, 200), (2, 9), (699, 1)]),
           ({"strip": 1, "W": 200}, [(1, 1), (1, 500), (200, 1), (40, 20)])]
    if not q:
        out += [({"conts": [c, d]}, list(ms)) for c in ((2, 3), (4, 2)) for d in ((1, 2), (3, 3))
                for ms in gen.multisets(A, 3)]
    return out


def exports():
    yield None
    for name in (None, "a-B_9"):
        for size in ({}, {"width": 300, "height": 20}):
            e = {"type": "html", "path": DIR}
            e.update({"file_name": name} if name else {}, **size)
            yield e
            for f in FORMATS:
                yield dict(e, type="image", format=f)


def cases(tier):
    q = tier == "quick"
    n = len(problems(q))
    ex = list(exports())
    for i in range(n):
        for j in range(len(ex)):
            if i < 3 or i == 8 or j % 6 == i % 6 or not q:
                yield {"k": "config", "p": i, "e": j}
        for j in (1, 3, 9):
            yield {"k": "fail", "p": i, "e": j}
        yield {"k": "unsolved", "p": i}
        yield {"k": "files", "p": i}
    for i in range(len(NAMES)):
        for j in range(len(NAMES)):
            if i != j and (not q or j in (0, 1) or j == i + 1):
                yield {"k": "names", "i": i, "j": j}
    for n in (41, 64, 65, 100, 101, 120, 255, 256, 257, 500, 999, 1000, 1001, 1002, 2500):
        yield {"k": "many", "n": n}
    for i in (1, 7, 8):
        for first in OPS:
            yield {"k": "history", "p": i, "first": first, "depth": 3 if q else 4}


class Recorder:
    def __init__(self, fail_at=None, error=None, real=False):
        self.calls, self.fail_at, self.error, self.real = [], fail_at, error, real

    def __enter__(self):
        self.saved = pio.write_html, pio.write_image, pio.show
        pio.write_html = self.out("html", self.saved[0])
        pio.write_image = self.out("image", None)
        pio.show = self.out("show", None)
        return self

    def __exit__(self, *a):
        pio.write_html, pio.write_image, pio.show = self.saved

    def out(self, kind, real):
        def call(fig, *a, **k):
            if kind == "show":
                self.calls.append((kind, rects(fig), None, None, frame(fig)))
                return
            files = [c for c in self.calls if c[0] != "show"]
            if self.fail_at is not None and len(files) == self.fail_at:
                self.calls.append(("failed", None, None, None, None))
                raise self.error
            path = str(a[0] if a else k.get("file"))
            size = None
            if kind == "image":
                scope = pio.kaleido.scope
                size = (k.get("width") or scope.default_width, k.get("height") or scope.default_height)
                if k.get("format"):
                    path = os.path.splitext(path)[0] + "." + k["format"]
            self.calls.append((kind, rects(fig), path, size, frame(fig)))
            if real is not None and self.real:
                real(fig, *a, **dict(k, include_plotlyjs=False))
        return call


def rects(fig):
    out = []
    d = fig.to_plotly_json() if hasattr(fig, "to_plotly_json") else fig
    for s in d.get("layout", {}).get("shapes", ()):
        if s.get("type", "rect") == "rect":
            x, y = [sorted((s.get(k + "0"), s.get(k + "1")), key=repr if None in (s.get(k + "0"), s.get(k + "1"))
                           else None) for k in "xy"]
            out.append(((s.get("label") or {}).get("text"), x[0], y[0], x[1], y[1]))
    return sorted(out, key=repr)


def frame(fig):
    """(title, outlines that answer to the pointer, visible x and y, shown to scale)"""
    d = fig.to_plotly_json() if hasattr(fig, "to_plotly_json") else fig
    lay = d.get("layout", {})
    title = lay.get("title") or {}
    boxes = sorted((min(t["x"]), min(t["y"]), max(t["x"]), max(t["y"])) for t in d.get("data", ())
                   if t.get("type") == "scatter" and len(t.get("x", ())) and len(t.get("y", ())))
    x, y = lay.get("xaxis") or {}, lay.get("yaxis") or {}
    scale = (y.get("scaleratio") or 1) if y.get("scaleanchor") == "x" else (
        1 / (x.get("scaleratio") or 1) if x.get("scaleanchor") == "y" else None)
    return (title.get("text") if isinstance(title, dict) else title, boxes,
            tuple(x.get("range") or ()), tuple(y.get("range") or ()), scale)


def judge_frame(cid, rectangles, f, info):
    title, boxes, xs, ys, scale = f
    if cid not in str(title):
        raise Violation("the figure of %s has the title %r | %s" % (cid, title, info))
    if boxes and boxes != sorted(r[1:] for r in rectangles if r[0] is not None):
        raise Violation("the hover outlines of %s are %s, the items' rectangles %s | %s" % (
            cid, boxes, rectangles, info))
    cont = next(r for r in rectangles if r[0] is None)
    for seen, size in ((xs, cont[3]), (ys, cont[4])):
        if seen and not (min(seen) <= 0 and max(seen) >= size):
            raise Violation("the axes show %s of %s, size %d | %s" % (seen, cid, size, info))
    if scale != 1:
        raise Violation("the figure of %s isn't to scale: %s | %s" % (cid, scale, info))


def expected(p):
    out = {}
    for cid, d in p.containers.items():
        sol = p.solution[cid]
        L = d["L"]
        if p.container_height is not None:
            L = max([s[1] + s[3] for s in sol.values()] + [p.container_min_height or 0])
        out[cid] = sorted([(i, x, y, x + w, y + l) for i, (x, y, w, l) in sol.items()] + [(None, 0, 0, d["W"], L)],
                          key=repr)
    return out


def make(case, export=None, show=None):
    conf, dims = problems(False)[case["p"]]
    fig = {}
    if export is not None:
        fig["export"] = dict(export)
    if show is not None:
        fig["show"] = show
    kw = {"figure": fig} if fig else {}
    return ps.make(hp, conf, gen.ids(dims), True, **kw)


def judge(p, export, show, calls, info):
    want = expected(p)
    shown = [c for c in calls if c[0] == "show"]
    files = [c for c in calls if c[0] in ("html", "image")]
    if len(shown) != (len(want) if show else 0):
        raise Violation("%d figures shown, %d containers, show %s | %s" % (len(shown), len(want), show, info))
    if len(files) != (len(want) if export is not None else 0):
        raise Violation("%d figures exported, %d containers | %s" % (len(files), len(want), info))
    if export is not None:
        name = export.get("file_name") or "PlotlyGraph"
        ext = "html" if export["type"] == "html" else export["format"]
        for cid, w in want.items():
            path = os.path.join(export["path"], "%s__%s.%s" % (name, cid, ext))
            mine = [c for c in files if c[2] == path]
            if len(mine) != 1:
                raise Violation("%s was exported %d times, exported were %s | %s" % (
                    path, len(mine), [c[2] for c in files], info))
            c = mine[0]
            if c[0] != export["type"]:
                raise Violation("exported as %s | %s" % (c[0], info))
            if c[1] != w:
                raise Violation("figure of %s has rectangles %s, must be %s | %s" % (cid, c[1], w, info))
            judge_frame(cid, w, c[4], info)
            if c[0] == "image" and c[3] != (export.get("width", 1700), export.get("height", 1700)):
                raise Violation("image size %s | %s" % (c[3], info))
    if show:
        if sorted(map(repr, (c[1] for c in shown))) != sorted(map(repr, want.values())):
            raise Violation("shown rectangles %s, must be %s | %s" % ([c[1] for c in shown], want, info))
        titles = [str(c[4][0]) for c in shown]
        for cid, w in want.items():
            mine = [c for c in shown if cid in str(c[4][0]) and c[1] == w]
            if not mine:
                raise Violation("no figure with the title of %s shows it, titles %s | %s" % (cid, titles, info))
            judge_frame(cid, w, mine[0][4], info)


def draw(p, info, arg=None, export=None, show=None):
    """One create_figure judged; show: the settings' value."""
    env.CAPTURE.clear()
    sol, val, st = trace.copy(p.solution), dict(getattr(p, "obj_val_per_container", {})), repr(p.settings)
    with Recorder() as r:
        p.create_figure(**({} if arg is None else {"show": arg}))
    rec = list(env.CAPTURE.records)
    if p.solution != sol or dict(getattr(p, "obj_val_per_container", {})) != val or repr(p.settings) != st:
        raise Violation("create_figure changed solution or settings | %s" % info)
    if any(lv >= logging.ERROR for lv, _ in rec):
        raise Violation("create_figure logs the error %s | %s" % (rec, info))
    warned = any(lv == logging.WARNING for lv, _ in rec)
    really = show if show is not None else bool(arg)
    if not sol or not really and export is None:
        if r.calls or not warned:
            raise Violation("nothing to do, but outputs %s, warnings %s | %s" % (r.calls, rec, info))
        return
    if warned:
        raise Violation("warns %s | %s" % (rec, info))
    judge(p, export, really, r.calls, info)


def config(case, ctx):
    export = list(exports())[case["e"]]
    other = [None] + [{"type": "image", "path": DIR, "format": "svg", "width": w, "height": h}
                      for w, h in ((2000, 1200), (33, 4000))]
    for show in SHOWS:
        p = make(case, export, show)
        p.solve()
        for k, arg in enumerate(SHOWS):
            # another instance's export before it has no influence
            before = other[k % 3]
            if before:
                o = make({"p": 0}, before)
                o.solve()
                draw(o, "%s, the first" % before, None, before)
            draw(p, "%s export %s show setting %s argument %s" % (
                problems(False)[case["p"]], export, show, arg), arg, export, show)
            ctx.state()
            ctx.trans()
            ctx.validated()
            ctx.outcome((case, show, arg))


def unsolved(case, ctx):
    for export in (None, {"type": "html", "path": DIR}):
        for show in SHOWS:
            p = make(case, export, show)
            for arg in SHOWS:
                draw(p, "unsolved, export %s show %s %s" % (export, show, arg), arg, export, show)
                p.solve()
                p.items[gen.ITEM_IDS[0]]["w"] = 1
                draw(p, "changed, export %s show %s %s" % (export, show, arg), arg, export, show)
                ctx.trans(2)
            ctx.state()
            ctx.validated()


def fail(case, ctx):
    export = list(exports())[case["e"]]
    for show in (None, True):
        p = make(case, export, show)
        p.solve()
        n = len(p.containers)
        for at in range(n):
            for error in ERRORS:
                info = "%s export %s, call %d fails with %r" % (problems(False)[case["p"]], export, at + 1, error)
                with Recorder(at, error) as r:
                    try:
                        p.create_figure()
                        raise Violation("no error surfaces | %s" % info)
                    except hp.exceptions.FigureExportError:
                        pass
                    except Violation:
                        raise
                    except Exception as e:
                        raise Violation("%r instead of FigureExportError | %s" % (e, info))
                if not any(c[0] == "failed" for c in r.calls):
                    raise Violation("error before the failing call | %s" % info)
                ctx.state()
                ctx.trans()
                ctx.validated()
                ctx.outcome(info)
        draw(p, "after the failures", None, export, show)


def files(case, ctx):
    """Real html files; a directory that disappears after validation."""
    d = tempfile.mkdtemp(dir=DIR)
    try:
        p = make(case, {"type": "html", "path": d, "file_name": "f"})
        p.solve()
        with Recorder(real=True):
            p.create_figure()
        want = sorted("f__%s.html" % c for c in p.containers)
        if sorted(os.listdir(d)) != want:
            raise Violation("files %s, must be %s" % (sorted(os.listdir(d)), want))
        for f in want:
            if os.path.getsize(os.path.join(d, f)) < 500:
                raise Violation("file %s is incomplete" % f)
    finally:
        shutil.rmtree(d)
    try:
        with Recorder(real=True):
            p.create_figure()
        raise Violation("export into a missing directory gives no error")
    except hp.exceptions.FigureExportError:
        pass
    except OSError as e:
        raise Violation("%r instead of FigureExportError" % e)
    # a directory with the name of the last figure's file
    os.mkdir(d)
    try:
        os.mkdir(os.path.join(d, want[-1]))
        with Recorder(real=True):
            p.create_figure()
        raise Violation("export that can't write gives no error")
    except hp.exceptions.FigureExportError:
        pass
    except OSError as e:
        raise Violation("%r instead of FigureExportError" % e)
    finally:
        shutil.rmtree(d)
    ctx.state()
    ctx.trans(3)
    ctx.validated()


NAMES = ("c.1", "c.2", "c 1", " c", "\u00e4\u4e16", "%s", "%", "{}", "{0}", "a__b", "__", ".h", "..", "c.1.html", "-", "c.png",
         "c", "C", "#", "", "x" * 120, "\\", "a'b", 'a"b', "<b>", "$HOME", "~", "*", "?", "a;b", "a:b", "a\nb", "0", "00", "None")


def names(case, ctx):
    """Ids of containers and items with any characters (none that separates directories)."""
    first, second = NAMES[case["i"]], NAMES[case["j"]]
    for conts in ((first,), (first, second)):
        p = hp.PointGenPack(containers={c: {"W": 3 + k, "L": 2} for k, c in enumerate(conts)},
                            items={i: {"w": 1 + k, "l": 1} for k, i in enumerate(conts[::-1] + ("i",))})
        p.solve()
        for export in (None, {"type": "html", "path": DIR}, {"type": "image", "path": DIR, "format": "svg", "file_name": "f-1"}):
            p.settings = {"figure": {"export": dict(export)} if export else {}}
            draw(p, "containers %r export %s" % (conts, export), True, export, None)
            ctx.state()
            ctx.trans()
            ctx.validated()
            ctx.outcome((conts, export))
    d = tempfile.mkdtemp(dir=DIR)
    try:
        p.settings = {"figure": {"export": {"type": "html", "path": d, "file_name": "f"}}}
        with Recorder(real=True):
            p.create_figure()
        if sorted(os.listdir(d)) != sorted("f__%s.html" % c for c in p.containers):
            raise Violation("files %s of containers %s" % (sorted(os.listdir(d)), list(p.containers)))
    finally:
        shutil.rmtree(d)


def plain(o):
    if hasattr(o, "to_plotly_json"):
        o = o.to_plotly_json()
    return o if isinstance(o, dict) else {}


class Null:
    """Accepts anything."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self

    def __call__(self, *a, **k):
        return self


class Light(Null):
    """A figure that only keeps what it's given (plotly needs minutes for 1000 shapes)."""

    def __init__(self, *a, **k):
        self.layout, self.data = {"shapes": []}, []

    def add_shape(self, shape=None, **k):
        self.layout["shapes"].append(dict(plain(shape), **k))
        return self

    def add_trace(self, trace, **k):
        self.data.append(plain(trace))
        return self

    def add_traces(self, data, **k):
        self.data += [plain(t) for t in data]
        return self

    def update_layout(self, d=None, **k):
        for key, v in dict(d or {}, **k).items():
            if key == "shapes":
                self.layout["shapes"] += [plain(x) for x in v]
            else:
                self.layout[key] = v
        return self

    def update_xaxes(self, d=None, **k):
        self.layout.setdefault("xaxis", {}).update(d or {}, **k)
        return self

    def update_yaxes(self, d=None, **k):
        self.layout.setdefault("yaxis", {}).update(d or {}, **k)
        return self

    def to_plotly_json(self):
        return {"data": self.data, "layout": self.layout}

    def write_html(self, *a, **k):
        pio.write_html(self, *a, **k)

    def write_image(self, *a, **k):
        pio.write_image(self, *a, **k)

    def show(self, *a, **k):
        pio.show(self, *a, **k)


def many(case, ctx):
    n = case["n"]
    p = hp.HyperPack(containers={"c": {"W": 50, "L": 50}, "d": {"W": 1, "L": 1}},
                     items={"i%d" % k: {"w": 1, "l": 1} for k in range(n)},
                     settings={"figure": {"export": {"type": "html", "path": DIR}}})
    p.solution = {"c": {"i%d" % k: [k % 50, k // 50, 1, 1] for k in range(n)}, "d": {}}
    p.obj_val_per_container = {"c": n / 2500, "d": 0}
    light = n > 120
    with mock.patch.object(go, "Figure", Light if light else go.Figure), \
            mock.patch.object(go, "Scatter", dict if light else go.Scatter), Recorder() as r:
        p.create_figure(show=True)
    want = expected(p)
    if [c[0] for c in r.calls].count("html") != 2 or [c[0] for c in r.calls].count("show") != 2:
        raise Violation("%d items in 2 containers: outputs %s" % (n, [c[0] for c in r.calls]))
    for c in r.calls:
        if light and len(c[1]) < 1:
            continue     # drawn in another way
        if c[1] not in want.values():
            raise Violation("%d items in 2 containers: %d rectangles %s.. in %s" % (n, len(c[1]), c[1][:3], c[0]))
    ctx.state()
    ctx.trans()
    ctx.validated()
    ctx.outcome(n)


OPS = ("draw", "drawshow", "solve", "item", "show", "hide", "html", "png", "none", "local", "height")


def history(case, ctx):
    for rest in itertools.product(OPS, repeat=case["depth"] - 2):
        seq = ("solve", case["first"]) + rest + ("draw",)
        p = make(case)
        export = show = None
        for k, op in enumerate(seq):
            info = "problem %d after %s" % (case["p"], seq[:k + 1])
            if op == "draw":
                draw(p, info, None, export, show)
            elif op == "drawshow":
                draw(p, info, True, export, show)
            elif op == "solve":
                p.solve()
            elif op == "local":
                p.local_search()
            elif op == "item":
                p.items[gen.ITEM_IDS[1]] = {"w": 3, "l": 1}
            elif op == "height":
                if p.container_height is not None:
                    p.container_height = 7
                    p.container_min_height = 7
            else:
                show = {"show": True, "hide": False}.get(op, show)
                if op == "html":
                    export = {"type": "html", "path": DIR}
                elif op == "png":
                    export = {"type": "image", "path": DIR, "format": "png", "file_name": "x", "width": 44}
                elif op == "none":
                    export = show = None
                fig = {}
                if export is not None:
                    fig["export"] = dict(export)
                if show is not None:
                    fig["show"] = show
                p.settings = {"figure": fig}
            ctx.trans()
        ctx.state()
        ctx.validated()
        ctx.outcome(seq)


def run(case, ctx):
    globals()[case["k"]](case, ctx)

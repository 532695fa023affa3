import copy
import itertools
import os
import sys
import tempfile

import env
import gen
from core import Violation

ID = "C24"
BOUNDS = {
    "quick": "html, image and show-only settings with every combination of up to 3 keys deviating over 6-16 values "
             "per key (valid, boundary, wrong type, missing); 44 plotly versions x 43 kaleido versions (also "
             "missing) x 33 figure settings; each through construction, assignment and validate_settings, "
             "versions also through create_figure; every history of 3 kinds of file or directory at one path",
    "thorough": "full product of the values of all keys; every version number with components from 8 values",
}
ORACLE = "reference validator written from docs/source/figures.rst and version numbers compared as integer tuples"
NOTE = ("pre-release suffixes of the bounds themselves, None for optional keys, booleans as pixel sizes, unknown "
        "keys, relative paths and the empty path are left open. Versions are set on the imported modules.")
hp = env.hyperpack()
SettingsError = hp.exceptions.SettingsError
import plotly        # noqa: E402
import plotly.io as pio  # noqa: E402
import kaleido       # noqa: E402

DIR = None
M = "<missing>"
FORMATS = ("pdf", "png", "jpeg", "webp", "svg")
GOODNAME = ["PlotlyGraph", "a", "-", "_", "0", "aZ-_09", "n" * 45]
OTHER = ["eps", "gif", "tiff", "tif", "bmp", "json", "htm", "ps", "emf", "avif", "jpe", "svgz", "txt", "pngs", "sv", "p",
         "images", "jpeg2000", "raw", "PDF", "Svg", "JPEG", "WebP", "png ", " png", "png\n", "pdf,png", "*", "None"]
VALS = {
    "type": ["html", "image", M, None, "", "HTML", "Image", "png", "html ", 1, {}, ["html"], True, ("html",)],
    "path": ["dir", "sub", "link", "deep", "deeper", M, None, "missing", "file", "filelink", "dangling", "nul", "long", "below", 1, 1.5, ["."],
             {}, b".", True],
    "format": list(FORMATS) + [M, None, "PNG", "", ".png", "jpg", "html", 1, ["png"], {}, ("png",), True] + OTHER[:2],
    "file_name": GOODNAME + [M, "n" * 46, "", "a b", "a.b", "a/b", "é", "a\nb", " a", "a ", "a*", 1, 1.5, ["a"], {}, True,
                             b"a"],
    "width": [M, 1, 2, 1700, 10 ** 6, 0, -1, -1700, 1.0, 2.5, 0.5, "5", [5], {}, (5,)] + gen.ODD,
    "height": [M, 1, 2, 1700, 10 ** 6, 0, -1, -1700, 1.0, 2.5, 0.5, "5", [5], {}, (5,)] + gen.ODD,
    "show": [M, True, False, None, 0, 1, "True", "", [], {}, 1.0] + gen.ODD[:1],
}
KEYS = tuple(VALS)
BASES = {
    "html": {"type": "html", "path": "dir"},
    "image": {"type": "image", "path": "dir", "format": "png", "file_name": "a", "width": 7, "height": 9, "show": True},
}
VERSIONS = ["0.0.1", "0.1.9", "0.2.0", "0.2.1", "0.2.2", "0.2.10", "0.2.1.post1", "0.2.9", "0.3.0", "0.3.1", "0.10.0", "0.12.1",
            "0.20.1", "0.2", "0.3", "1.0.0", "2.0.1", "5.9.0", "5.13.0", "5.13.9", "5.14.0", "5.14.1", "5.14", "5.15",
            "5.2.20", "5.24.1", "5.100.0", "5.14.10", "5.16.0rc1", "6.0.0", "6.0.1", "6.1.0", "10.0.0", "4.14.3",
            "4.99.9", "5", "6", "50.1.0", "5.1.40", "5.13.14", "5.140.0", "5.20.dev3", "0.2.dev5", "6.dev1"]


DEEP = ["d" * 250] * 9


def setup(ctx):
    global DIR
    cwd = os.getcwd()
    DIR = tempfile.mkdtemp(prefix="hpmc-c24-", dir=cwd if "/hpmc-" in cwd else None)
    os.mkdir(os.path.join(DIR, "sub"))
    os.makedirs(os.path.join(DIR, *DEEP))
    open(os.path.join(DIR, "file"), "w").close()
    for link, to in (("link", "sub"), ("filelink", "file"), ("dangling", "nowhere")):
        os.symlink(os.path.join(DIR, to), os.path.join(DIR, link))


def path(v):
    if not isinstance(v, str) or v == M:
        return v
    return {"dir": DIR, "deep": os.path.join(DIR, *DEEP[:1]), "deeper": os.path.join(DIR, *DEEP), "nul": "a\0b", "long": os.path.join(DIR, "x" * 5000),
            "below": os.path.join(DIR, "file", "x")}.get(v, os.path.join(DIR, v))


def good(k, v, typ):
    """Is the value of the key a documented one?"""
    t = type(v)
    if k == "type":
        return t is str and v in ("html", "image")
    if k == "path":
        return t is str and v in ("dir", "sub", "link", "deep", "deeper")
    if k == "format":
        return t is str and v in FORMATS or typ == "html"
    if k == "file_name":
        return t is str and (v == M or v in GOODNAME)
    if k in ("width", "height"):
        return v == M and t is str or t is int and v > 0
    return v == M and t is str or t is bool


def build(vals):
    exp = {k: path(v) if k == "path" else copy.copy(v) for k, v in vals.items()
           if k != "show" and not (type(v) is str and v == M)}
    fig = {"export": exp}
    if not (type(vals["show"]) is str and vals["show"] == M):
        fig["show"] = copy.copy(vals["show"])
    return fig


def cases(tier):
    yield {"k": "other"}
    yield {"k": "changing", "depth": 3 if tier == "quick" else 4}
    q = tier == "quick"
    full = q and "no" or "yes"
    if q:
        for base in BASES:
            for n in (0, 1, 2, 3):
                for keys in itertools.combinations(KEYS, n):
                    yield {"k": "settings", "base": base, "keys": keys}
    else:
        for typ in range(len(VALS["type"])):
            for pth in range(len(VALS["path"])):
                for fmt in range(len(VALS["format"])):
                    yield {"k": "product", "type": typ, "path": pth, "format": fmt}
    for i in range(len(VERSIONS) + 2):
        yield {"k": "versions", "plotly": i, "full": full}
    if not q:
        for a, b in itertools.product((0, 1, 4, 5, 6, 7, 10, 50), (0, 1, 2, 9, 13, 14, 15, 100)):
            yield {"k": "numbers", "a": a, "b": b}


def attempt(how, fig, strip=False):
    """Exception or None."""
    items = {"a": {"w": 2, "l": 1}}
    kw = {"strip_pack_width": 4} if strip else {"containers": {"c": {"W": 3, "L": 3}}}
    s = {"figure": fig}
    try:
        if how == "construct":
            p = hp.HyperPack(items=items, settings=s, **kw)
        else:
            p = hp.HyperPack(items=items, **kw)
            if how == "assign":
                p.settings = s
            else:
                p.settings["figure"] = fig
                p.validate_settings()
    except Exception as e:
        return e, None
    return None, p


HOWS = ("construct", "assign", "key")


def judge(fig, ok, info, ctx, hows=HOWS):
    for how in hows:
        e, p = attempt(how, copy.deepcopy(fig), how == "assign")
        ctx.state()
        ctx.trans()
        ctx.validated()
        if ok and e is not None:
            raise Violation("valid figure settings %s are refused with %r | %s, %s" % (fig, e, how, info))
        if not ok and e is None:
            raise Violation("invalid figure settings %s are accepted | %s, %s" % (fig, how, info))
        if not ok and type(e) is not SettingsError:
            raise Violation("figure settings %s give %r instead of SettingsError | %s, %s" % (fig, e, how, info))
    ctx.outcome((repr(fig), ok))


def settings(case, ctx):
    base = dict({k: M for k in KEYS}, **BASES[case["base"]])
    for combo in itertools.product(*(VALS[k] for k in case["keys"])):
        vals = dict(base, **dict(zip(case["keys"], combo)))
        if vals["file_name"] is None:
            continue
        ok = all(good(k, vals[k], vals["type"]) for k in KEYS)
        judge(build(vals), ok, "base " + case["base"], ctx, HOWS if len(combo) < 3 else (HOWS[(len(repr(combo))) % 3],))


def product(case, ctx):
    vals = {k: VALS[k][case[k]] for k in ("type", "path", "format")}
    for combo in itertools.product(VALS["file_name"], VALS["width"][:10], VALS["height"][:10], VALS["show"][:5]):
        vals.update(zip(("file_name", "width", "height", "show"), combo))
        ok = all(good(k, vals[k], vals["type"]) for k in KEYS)
        judge(build(vals), ok, "", ctx, ("assign",))


def other(case, ctx):
    """Wrong figure and export values, no export."""
    for v in ("str", [], 1, 1.5, set(), (), True, None, [("show", True)]):
        judge(v, False, "", ctx)
        judge({"export": v}, False, "", ctx)
        judge({"export": v, "show": True}, False, "", ctx)
    judge({}, True, "", ctx)
    judge({"export": {}}, False, "", ctx)
    for v in OTHER:
        judge(build(dict({k: M for k in KEYS}, **dict(BASES["image"], format=v))), False, "", ctx)
        judge(build(dict({k: M for k in KEYS}, type=v, path="dir", format="png")), False, "", ctx)
    for v in VALS["show"]:
        if not (type(v) is str and v == M):
            judge({"show": v}, good("show", v, None), "", ctx)
    # with the other settings
    for other_ in ({"rotation": False}, {"workers_num": 2, "max_time_in_seconds": 3}):
        for fig, ok in (({"show": True}, True), ({"show": 1}, False), ({"export": {"type": "html", "path": DIR}}, True),
                        ({"export": {"type": "html"}}, False)):
            for first in (0, 1):
                s = {}
                if first:
                    s["figure"] = copy.deepcopy(fig)
                s.update(other_)
                s["figure"] = copy.deepcopy(fig)
                try:
                    hp.HyperPack(containers={"c": {"W": 3, "L": 3}}, items={"a": {"w": 2, "l": 1}}, settings=s)
                    got = True
                except SettingsError:
                    got = False
                if got is not ok:
                    raise Violation("%s: accepted %s, must be %s" % (s, got, ok))
                ctx.state()
                ctx.trans()
                ctx.validated()


def changing(case, ctx):
    """The path is judged by what it is now."""
    base = tempfile.mkdtemp(dir=DIR)
    name = os.path.join(base, "x")

    def make(kind):
        if os.path.islink(name) or os.path.isfile(name):
            os.remove(name)
        elif os.path.isdir(name):
            os.rmdir(name)
        if kind == "directory":
            os.mkdir(name)
        elif kind == "file":
            open(name, "w").close()
        elif kind != "absent":
            os.symlink({"link": DIR, "filelink": os.path.join(DIR, "file"), "dangling": name + "y"}[kind], name)

    kinds = ("absent", "directory", "file", "link", "filelink", "dangling")
    for seq in itertools.product(kinds, repeat=case["depth"]):
        for k, kind in enumerate(seq):
            make(kind)
            for fig in ({"export": {"type": "html", "path": name}}, {"export": {"type": "image", "path": name, "format": "svg"}}):
                judge(fig, kind in ("directory", "link"), "the path was %s" % (seq[:k + 1],), ctx)
    make("absent")
    os.rmdir(base)


def number(v):
    """First three numbers; only used for versions where these decide."""
    out = []
    for part in v.split(".")[:3]:
        digits = ""
        for c in part:
            if not c.isdigit():
                break
            digits += c
        out.append(int(digits or 0))
    return tuple(out + [0] * (3 - len(out)))


def plotly_ok(v):
    return v is not None and (5, 14, 0) <= number(v) < (6, 0, 0)


def kaleido_ok(v):
    return v is not None and (0, 2, 1) <= number(v) < (0, 3, 0)


class Versions:
    def __init__(self, pl, ka):
        self.new = {"plotly": pl, "kaleido": ka}

    def __enter__(self):
        self.mods = {"plotly": plotly, "kaleido": kaleido}
        self.old = {k: m.__version__ for k, m in self.mods.items()}
        for k, v in self.new.items():
            if v is None:
                sys.modules[k] = None
            else:
                self.mods[k].__version__ = v
        self.show = pio.show
        pio.show = lambda *a, **k: None

    def __exit__(self, *a):
        for k, m in self.mods.items():
            sys.modules[k] = m
            m.__version__ = self.old[k]
        pio.show = self.show


def versions(case, ctx):
    pls = VERSIONS + [None, plotly.__version__]
    pl = pls[case["plotly"]]
    for ka in VERSIONS + [None]:
        version(pl, ka, ctx)


def numbers(case, ctx):
    for c in (0, 1, 2, 9, 13, 14, 100):
        v = "%d.%d.%d" % (case["a"], case["b"], c)
        for w in ("0.2.1", "0.1.%d" % c, None):
            version(v, w, ctx)
        version("5.24.1", v, ctx)
        version("5.13.%d" % c, v, ctx)


def version(pl, ka, ctx):
    figs = [({"export": {"type": "image", "path": DIR, "format": f}}, True) for f in FORMATS[:2]]
    figs += [({"export": {"type": "html", "path": DIR}}, False), ({"show": True}, False), ({"show": False}, False),
             ({"export": {"type": "html", "path": DIR, "format": "png", "width": 5}, "show": True}, False)]
    figs += [({"export": dict({"type": kind, "path": DIR, "format": f}, **more), "show": show}, kind == "image")
             for kind in ("image", "html") for f in FORMATS[2:4] for more in ({}, {"width": 20, "height": 30}, {"file_name": "a"})
             for show in (True, False)]
    info = "plotly %s kaleido %s" % (pl, ka)
    with Versions(pl, ka):
        for fig, image in figs:
            judge(fig, plotly_ok(pl) and (not image or kaleido_ok(ka)), info, ctx)
        judge({}, True, info, ctx)
        judge({"show": "x"}, False, info, ctx)
        judge({"export": {"type": "image", "path": DIR, "format": "gif"}}, False, info, ctx)
        # without figure settings: gated by create_figure
        p = hp.HyperPack(containers={"c": {"W": 3, "L": 3}}, items={"a": {"w": 2, "l": 1}})
        p.solve()
        e = None
        try:
            p.create_figure(show=True)
        except Exception as x:
            e = x
        if plotly_ok(pl) and e is not None or not plotly_ok(pl) and type(e) is not SettingsError:
            raise Violation("create_figure gives %r | %s" % (e, info))
        ctx.trans()


def run(case, ctx):
    globals()[case["k"]](case, ctx)

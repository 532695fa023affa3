import contextlib
import io
import itertools
import random

import env
import landscape as ls
from core import Violation

ID = "C25"
CPU_LIMIT = 300
BOUNDS = {
    "quick": "one container with one item: averages 1..9 in one dimension and 3 or 4 values in the others, every outcome "
             "of every draw; averages 1..60, 99..101, 1000, 10^6 per dimension: extremes of every draw; every "
             "subset of the 6 parameters given; 1-5 containers x 1-5 items and (40, 3), (1, 200), (7, 30), and 14 larger up to 2000 with the extremes of all draws",
    "thorough": "averages 1..25 in pairs of dimensions, 1..400 per dimension",
}
ORACLE = ("accepted by the solver classes, requested counts, positive integers; over all outcomes the values of each "
          "dimension are symmetric about the requested average or truncated at 1")
NOTE = ("every draw of Python's random module is decided by the harness through random.Random._randbelow and random(); "
        "integer parameters.")
hp = env.hyperpack()
NAMES = ("containers_num", "containers_width", "containers_length", "items_num", "items_width", "items_length")
DEFAULTS = {"containers_num": 1, "containers_width": 50, "containers_length": 50, "items_num": 30, "items_width": 5,
            "items_length": 5}
FIELDS = (("containers", "W", "containers_width"), ("containers", "L", "containers_length"),
          ("items", "w", "items_width"), ("items", "l", "items_length"))


class Draws:
    """Decides every random draw."""
    pick = None

    def __enter__(self):
        self.saved = random.Random._randbelow, random.random
        random.Random._randbelow = lambda r, n: Draws.pick(n)
        r = lambda: (0.0, 0.5, 1 - 2 ** -53)[Draws.pick(3)]  # noqa: E731
        random.random = r
        random._inst.random = r
        return self

    def __exit__(self, *a):
        random.Random._randbelow, random.random = self.saved
        del random._inst.random


def cases(tier):
    q = tier == "quick"
    for i in range(4):
        for a in range(1, 10 if q else 26):
            if q:
                yield {"k": "full", "i": i, "avgs": [a]}
            else:
                for j in range(i + 1, 4):
                    for b in range(1, 26):
                        yield {"k": "full", "i": i, "j": j, "avgs": [a, b]}
        for a in list(range(1, 61 if q else 401)) + [99, 100, 101, 499, 1000, 999999, 10 ** 6]:
            yield {"k": "extremes", "i": i, "avg": a}
    for n in range(7):
        for given in itertools.combinations(range(6), n):
            yield {"k": "given", "given": given}
    for n, m in list(itertools.product(range(1, 6), range(1, 6))) + [(40, 3), (1, 200), (7, 30)]:
        yield {"k": "counts", "n": n, "m": m}
    for n, m in [(1, v) for v in (50, 99, 101, 256, 257, 500, 501, 999, 1000, 1001, 2000)] + [
            (v, 1) for v in (50, 99, 100, 101, 256, 257, 500, 1000)] + [(40, 40), (10, 101), (101, 10), (3, 700)] + (
            [] if q else [(1, 10001), (10001, 1), (100, 101)]):
        yield {"k": "large", "n": n, "m": m}


def generate(kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return hp.generate_problem_data(**kw)


def judge(data, kw, seen, ctx, build=True):
    p = dict(DEFAULTS, **kw)
    info = "%s -> %s" % (kw, str(data)[:400])
    n = p["containers_num"]
    if not isinstance(data, dict) or set(data) != {"containers", "items"}:
        raise Violation("wrong structure | %s" % info)
    if len(data["containers"]) != n or len(data["items"]) != n * p["items_num"]:
        raise Violation("%d containers and %d items | %s" % (len(data["containers"]), len(data["items"]), info))
    for key, dim, name in FIELDS:
        for v in data[key].values():
            if type(v.get(dim)) is not int or v[dim] < 1:
                raise Violation("dimension %s | %s" % (v, info))
            seen.setdefault(name, set()).add(v[dim])
    if build:
        for cls in (hp.HyperPack, hp.PointGenPack):
            try:
                prob = cls(**data)
            except Exception as e:
                raise Violation("refused by %s with %r | %s" % (cls.__name__, e, info))
            if len(prob.items) != n * p["items_num"] or len(prob.containers) != n:
                raise Violation("problem has other sizes | %s" % info)
    ctx.trans()
    ctx.validated()
    ctx.outcome(info)


def centred(seen, kw):
    p = dict(DEFAULTS, **kw)
    for _, _, name in FIELDS:
        if name not in kw:
            continue  # nothing requested (documented and actual default of items_length differ)
        vals, avg = seen[name], p[name]
        lo, hi = min(vals), max(vals)
        if not lo <= avg <= hi or lo > 1 and lo + hi != 2 * avg or lo + hi < 2 * avg or hi > 2 * avg + 1:
            raise Violation("%s: values between %d and %d for an average of %d | %s" % (name, lo, hi, avg, kw))
        if avg >= 10 and lo == hi:
            raise Violation("%s: all values are %d, don't vary | %s" % (name, lo, kw))


def tree(kw, reduce, ctx):
    """Every sequence of draws, reduce(n): the explored values of a draw out of n."""
    seen = {}
    with Draws():
        for ch in ls.Choices():
            def pick(n):
                vals = reduce(n)
                return vals[ch.choose(len(vals))]
            Draws.pick = pick
            judge(generate(kw), kw, seen, ctx)
            ctx.state()
    centred(seen, kw)


def single(kw, ctx):
    """All draws minimal, middle or maximal; and each draw deviating alone."""
    seen = {}
    with Draws():
        for base in range(3):
            val = lambda n, b: (0, n // 2, n - 1)[b]  # noqa: E731
            count = [0]

            def pick(n):
                count[0] += 1
                return val(n, base)
            Draws.pick = pick
            judge(generate(kw), kw, seen, ctx)
            total = count[0]
            for at in range(total) if total <= 60 else list(range(0, total, total // 30)):
                for dev in range(3):
                    if dev != base:
                        count[0] = 0

                        def pick(n):
                            count[0] += 1
                            return val(n, dev if count[0] == at + 1 else base)
                        Draws.pick = pick
                        judge(generate(kw), kw, seen, ctx, at % 7 == 0)
                        ctx.state()
    centred(seen, kw)


def full(case, ctx):
    dims = (1, 2, 7) if ctx.quick else (2,)
    names = [f[2] for f in FIELDS]
    fixed = {names[case["i"]]: case["avgs"][0]}
    if "j" in case:
        fixed[names[case["j"]]] = case["avgs"][1]
    rest = [n for n in names if n not in fixed]
    for vals in itertools.product(dims, repeat=len(rest)):
        kw = dict(zip(rest, vals), containers_num=1, items_num=1, **fixed)
        tree(kw, range, ctx)


def extremes(case, ctx):
    names = [f[2] for f in FIELDS]
    for other in (1, 5, 77):
        kw = {n: other for n in names}
        kw.update({names[case["i"]]: case["avg"], "containers_num": 1, "items_num": 1})
        tree(kw, lambda n: sorted({0, n // 2, n - 1}), ctx)


def given(case, ctx):
    vals = {"containers_num": 2, "containers_width": 31, "containers_length": 70, "items_num": 3, "items_width": 9,
            "items_length": 4}
    single({NAMES[i]: vals[NAMES[i]] for i in case["given"]}, ctx)


def counts(case, ctx):
    for w, l, W, L in ((5, 5, 50, 50), (1, 3, 4, 20)):
        single({"containers_num": case["n"], "items_num": case["m"], "items_width": w, "items_length": l,
                "containers_width": W, "containers_length": L}, ctx)


def large(case, ctx):
    """Many containers or items: all draws minimal, middle or maximal."""
    kw = {"containers_num": case["n"], "items_num": case["m"]}
    for kw in (kw, dict(kw, items_width=3, items_length=11, containers_width=20, containers_length=90)):
        seen = {}
        with Draws():
            for base in range(4):
                count = [0]

                def pick(n):
                    count[0] += 1
                    return (0, n // 2, n - 1, (count[0] * 7) % n)[base]
                Draws.pick = pick
                judge(generate(kw), kw, seen, ctx, base == 3)
                ctx.state()
        centred(seen, kw)


def run(case, ctx):
    globals()[case["k"]](case, ctx)

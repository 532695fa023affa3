import copy
import itertools
import json
import os
import subprocess

import mp
import core
import digest
import env
import gen
from histories import PROBLEMS, POOL, make, operations, perform
import model
import packspace as ps
import structs
import trace
from core import Violation

ID = "C06"
PIN = True
BOUNDS = {
    "quick": "every history of <=2 out of 34 operations (solving methods incl. expired, multi-process and failing ones, "
             "settings, strategy, heights, item changes, sorting, refused operations, another instance's searches) and of "
             "3 out of 20 on 2 bin and 3 strip problems, then solve, local_search (and hypersearch, after histories with one) compared with a fresh instance and the "
             "reference construction; side effects of solve / local_search over every order x strategies of a "
             "problem space and every kind of sequence; repeated solving of 9-2049 items; 6257 results in interpreters with hash seeds 0-23",
    "thorough": "histories of 3 out of 34 and 4 out of 20 on all problems, hash seeds 0-199",
}
ORACLE = "fresh instance of the same public state; reference construction (mc/model.py); snapshots before and after"
NOTE = ("hash seeds and interpreters are enumerated over a range, not exhaustively. Multi-process results are compared by "
        "C12.")
hp = mp.hp

def cases(tier):
    q = tier == "quick"
    for s in range(24 if q else 200):
        for part in ("solve", "local", "hyper"):
            yield {"k": "interpreter", "seed": s, "part": part}
    for i, pr in enumerate(PROBLEMS):
        strip = "W" in pr
        ops, few = operations(False, strip), operations(True, strip)
        for a in ops:
            if q:
                yield {"k": "history", "p": i, "first": [a], "small": 0, "depth": 2}
            else:
                for b in ops:
                    yield {"k": "history", "p": i, "first": [a, b], "small": 0, "depth": 3}
        for a, b in itertools.product(few, repeat=2):
            yield {"k": "history", "p": i, "first": [a, b], "small": 1, "depth": 3 if q else 4}
    for c in list(ps.many_cases(tier)) + list(ps.unfit_cases(tier))[::3]:
        yield c
    for n in (1, 2, 3, 4):
        for ms in gen.multisets(gen.dims(2) + [(3, 1)] if n < 4 else [(1, 2), (2, 1), (2, 2)], n):
            for conts in ([(3, 3)], [(2, 2), (3, 1)], None):
                yield {"k": "effects", "items": list(ms), "conts": conts}
    # items far too large among fitting ones
    for big in ([(2000, 1)], [(1, 5000), (2000, 1)], [(5000, 5000)], [(101, 2), (1, 101)]):
        for ms in gen.multisets([(1, 2), (2, 1), (2, 2)], 2):
            for conts in ([(3, 3)], [(2, 2), (3, 1)]):
                yield {"k": "effects", "items": list(ms) + big, "conts": conts}


def public(p):
    return {"items": pairs(p.items), "containers": pairs(p.containers), "settings": copy.deepcopy(p.settings),
            "strategy": p.potential_points_strategy, "height": p.container_height, "min": p.container_min_height}


def pairs(s):
    return [(k, [(x, s[k][x]) for x in s[k]]) for k in s]


def fresh(p, pr):
    kw = {"items": structs.plain(p.items), "settings": copy.deepcopy(p.settings)}
    if "W" in pr:
        f = hp.HyperPack(strip_pack_width=pr["W"], **kw)
        f.container_height = p.container_height
        if p.container_min_height is not None:
            f.container_min_height = p.container_min_height
    else:
        f = hp.HyperPack(containers=structs.plain(p.containers), **kw)
    f.potential_points_strategy = p.potential_points_strategy
    return f


def result(p):
    return ([(c, [(i, tuple(v)) for i, v in s.items()]) for c, s in p.solution.items()],
            list(p.obj_val_per_container.items()), p.calculate_obj_value(), p.container_height)


def reference(p, strip):
    conts = [(k, v["W"], v["L"]) for k, v in structs.plain(p.containers).items()]
    if strip:
        conts = [(conts[0][0], conts[0][1], p.container_height)]
    items = [(k, v["w"], v["l"]) for k, v in structs.plain(p.items).items()]
    want, _ = model.solve(conts, items, p.potential_points_strategy, p.settings.get("rotation", True),
                          p.container_height if strip else None)
    return [(c, sorted((r[0], tuple(r[1:])) for r in rs)) for c, rs in want.items()]


def history(case, ctx):
    pr = PROBLEMS[case["p"]]
    strip = "W" in pr
    ops = operations(bool(case["small"]), strip)
    for rest in itertools.product(ops, repeat=case["depth"] - len(case["first"])):
        seq = case["first"] + list(rest)
        p = make(pr)
        for i, op in enumerate(seq):
            perform(p, op, pr)
            ctx.trans()
        info = "problem %s after %s" % (pr, seq)
        f = fresh(p, pr)
        if public(f) != public(p):
            raise Violation("state %s, fresh instance %s | %s" % (public(p), public(f), info))
        want = reference(p, strip)
        height = p.container_height
        hyper = ("hypersearch", "hypersearch again") if "hyper" in seq else ()
        for how in ("solve", "solve again", "local_search") + hyper:
            if how in hyper:
                mp.set_pool(POOL)
                for x in (p, f):
                    if strip:
                        x.container_height = height
                    x.hypersearch(_exhaustive=False)
            elif how == "local_search":
                p.local_search()
                f.local_search()
            else:
                p.solve()
                if how == "solve":
                    f.solve()
                got = [(c, sorted(s)) for c, s in result(p)[0]]
                if got != want:
                    raise Violation("%s gives %s, the construction is %s | %s" % (how, got, want, info))
            if result(p) != result(f):
                raise Violation("%s gives %s, on a fresh instance %s | %s" % (how, result(p), result(f), info))
        ctx.state()
        ctx.validated()
        ctx.outcome((result(p), seq))


def effects(case, ctx):
    pr = {"items": case["items"]}
    if case["conts"]:
        pr["conts"] = case["conts"]
    else:
        pr["W"] = 3
    for order in gen.orders([tuple(i) for i in case["items"]]):
        pr["items"] = order
        for rot in (True, False):
            for h in (None,) if case["conts"] else (None, 3):
                for st in gen.FULL[:3] + gen.SINGLES[1:3]:
                    p = make(dict(pr, h=h) if h else pr, rot)
                    p.potential_points_strategy = st
                    settings = p.settings
                    ids = list(p.items)
                    for how in (None, list(ids), tuple(ids[::-1]), ids[::-1], ids[:1], "local", "local-", "solve", [], ()):
                        before, given, height = public(p), copy.copy(how), p.container_height
                        if how in ("local", "local-"):
                            p.local_search(throttle=how == "local")
                            before["height"] = p.container_height
                        elif how == "solve":
                            p.solve()
                        else:
                            p.solve(sequence=how)
                        info = "%s %s rotation %s strategy %s height %s" % (pr, how, rot, st, h)
                        if how != given or type(how) is not type(given):
                            raise Violation("the given sequence %s became %s | %s" % (given, how, info))
                        if public(p) != before or p.settings is not settings:
                            raise Violation("changed %s to %s | %s" % (before, public(p), info))
                        if how in ([], ()) and (any(p.solution.values()) or any(p.obj_val_per_container.values())):
                            raise Violation("packs %s of no items | %s" % (p.solution, info))
                        # debugging output changes nothing
                        got = result(p)
                        if how in ("local", "local-"):
                            if "W" in pr:
                                p.container_height = height
                            p.local_search(throttle=how == "local", debug=True)
                        else:
                            p.solve(sequence=None if how == "solve" else how, debug=True)
                        if result(p) != got:
                            raise Violation("%s with debug=True, %s without | %s" % (result(p), got, info))
                        ctx.trans()
                    ctx.state()
                    ctx.validated()
                    ctx.outcome(repr(p.solution))


def many(case, ctx):
    """Many items: solving again, after other sequences, and on another instance."""
    items = gen.ids([tuple(i) for i in case["items"]])
    ids = list(items)
    p = ps.make(hp, case, items, True)
    before = public(p)
    p.solve()
    want = result(p)
    info = "%s, %d items %s.." % (case.get("conts", case.get("W")), len(ids), case["items"][:5])
    for s in (None, ids[::-1], ids[:len(ids) // 2], [], None, ids, tuple(ids)):
        given = copy.copy(s)
        p.solve(sequence=s)
        if s != given or type(s) is not type(given):
            raise Violation("the given sequence changed | %s" % info)
        if public(p) != before:
            raise Violation("solving changed the instance | %s" % info)
        if (s is None or len(s) == len(ids)) and s != ids[::-1] and result(p) != want:
            raise Violation("solve gives %s, first %s | %s" % (result(p), want, info))
        ctx.trans()
    f = ps.make(hp, case, items, True)
    f.solve(sequence=ids[::-1])
    p.solve(sequence=ids[::-1])
    if result(f) != result(p):
        raise Violation("sequence gives %s, on a fresh instance %s | %s" % (result(p), result(f), info))
    ctx.state()
    ctx.validated()
    ctx.outcome(repr(p.solution))


def interpreter(case, ctx):
    n, here = digest.digest(hp, case["part"])
    e = dict(os.environ, PYTHONHASHSEED=str(case["seed"]))
    r = subprocess.run([core.python(), os.path.join(core.VERIF, "mc", "digest.py"), case["part"]], env=e,
                       stdout=subprocess.PIPE, text=True, timeout=200)
    if r.returncode:
        raise Violation("solving fails in an interpreter with hash seed %s" % case["seed"])
    there = json.loads(r.stdout)
    if there != [n, here]:
        raise Violation("results of %s differ between interpreters with hash seeds %s and %s" % (
            case["part"], case["seed"], os.environ.get("PYTHONHASHSEED")))
    ctx.state(n)
    ctx.trans(n)
    ctx.validated(n)


DEFAULT_POOL = hp.constants.DEFAULT_POTENTIAL_POINTS_STRATEGY_POOL


def run(case, ctx):
    # the pool is a constant of the library that the histories replace
    hp.constants.DEFAULT_POTENTIAL_POINTS_STRATEGY_POOL = DEFAULT_POOL
    globals()[case["k"]](case, ctx)

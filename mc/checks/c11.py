import itertools

import gen
import mp
from core import Violation

ID = "C11"
CPU_LIMIT = 400
PIN = True
BOUNDS = {
    "quick": "every worker number 1..12 x pool size 1..16 in bin and strip mode, worker numbers up to 40 "
             "for pool sizes 1-7; the exhaustive pool with 1..12, 16, 100, 719, 720, 721 workers; the exhaustive pools of "
             "<=3 instances (bin, strip, subclasses with other suffixes of 2-5 classes) used in every order",
    "thorough": "worker numbers 1..40 x pool size 1..48; exhaustive pool with 1..60 workers; <=4 instances",
}
ORACLE = "strategies searched per worker process, concatenated, equal the pool; set of permutations"
NOTE = "Real parent and worker code; local_search replaced by a recorder of the strategy in force."
hp = mp.hp
MANY = [p for p in itertools.permutations(gen.FREE6, 3)]


def cases(tier):
    q = tier == "quick"
    for strip in (0, 1):
        for w in range(1, 13 if q else 41):
            for n in range(1, 17 if q else 49):
                yield {"strip": strip, "workers": w, "n": n}
        for w in range(13, 41):
            for n in range(1, 8):
                yield {"strip": strip, "workers": w, "n": n}
        for w in list(range(1, 13 if q else 61)) + ([16, 100, 719, 720, 721] if strip == 0 or not q else [16, 100]):
            yield {"strip": strip, "workers": w, "n": 0}
    for kinds in (["sub3"], ["sub5"], ["sub3", "bin", "sub5"], ["bin", "sub3", "strip"], ["sub5", "sub3", "substrip"], ["sub2"]):
        yield {"k": "instances", "kinds": kinds}
    for depth in range(1, 4 if q else 5):
        for kinds in itertools.product(("bin", "strip", "sub", "substrip"), repeat=depth):
            yield {"k": "instances", "kinds": kinds}


class Sub(hp.HyperPack):
    STRATEGIES_SUFFIX = ("F", "E", "B__", "A__")
    STRATEGIES_SUFFIX_STRIPACK = ("E", "F", "A__", "B__")


class Sub2(hp.HyperPack):
    STRATEGIES_SUFFIX = ("C", "D")


class Sub3(hp.HyperPack):
    STRATEGIES_SUFFIX = ("A", "F", "D")


class Sub5(hp.HyperPack):
    STRATEGIES_SUFFIX = ("A__", "B__", "A", "F", "E")


SUBS = {"sub2": Sub2, "sub3": Sub3, "sub5": Sub5}


def instances(case, ctx):
    """Several instances of different kinds in one interpreter, in every order of use: the pool
    of each is the exhaustive one of its own kind."""
    for order in set(itertools.permutations(range(len(case["kinds"])))) if len(case["kinds"]) < 4 else [range(4)]:
        insts = []
        for kind in case["kinds"]:
            cls = SUBS.get(kind, Sub if kind.startswith("sub") else hp.HyperPack)
            kw = {"strip_pack_width": 3} if "strip" in kind else {"containers": {"c": {"W": 3, "L": 3}}}
            insts.append(cls(items={"i0": {"w": 1, "l": 1}}, **kw))
        for i in tuple(order) * 2:
            kind = case["kinds"][i]
            suffix = {"bin": gen.SUFFIX, "strip": gen.STRIP_SUFFIX, "sub": Sub.STRATEGIES_SUFFIX,
                      "substrip": Sub.STRATEGIES_SUFFIX_STRIPACK}.get(kind)
            suffix = suffix or SUBS[kind].STRATEGIES_SUFFIX
            got = insts[i].get_strategies()
            free = [c for c in gen.DEFAULT if c not in suffix]
            want = {p + tuple(suffix) for p in itertools.permutations(free)}
            ctx.trans()
            if len(got) != len(want) or {tuple(x) for x in got} != want:
                raise Violation("exhaustive pool of a %s instance: %d strategies, the first %s | used in the order %s" % (
                    kind, len(got), got[:1], [case["kinds"][j] for j in order]))
            if isinstance(got, list):
                got.clear()         # the caller's own
    ctx.state()
    ctx.validated()
    ctx.outcome(case["kinds"])


def run(case, ctx):
    if case.get("k") == "instances":
        return instances(case, ctx)
    strip, workers = case["strip"], case["workers"]
    free = [c for c in gen.DEFAULT if c not in gen.SUFFIX]
    suffix = gen.STRIP_SUFFIX if strip else gen.SUFFIX
    if case["n"]:
        pool = MANY[:case["n"]]
        mp.set_pool(pool)
        table = {}
    else:
        pool = None
        table = {}
    all_st = pool or [p + tuple(suffix) for p in itertools.permutations(free)]
    for k, st in enumerate(all_st):
        # rising and falling values: improvements must not matter
        table[st] = 0.0002 if strip else 0.01 + (k * 7 % 11) / 100
    with mp.Stub(table, strip) as s:
        try:
            sim, prob = mp.one(lambda: s.problem(workers), exhaustive=pool is None)
        except KeyError as e:
            raise Violation("strategy %s is no strategy of the pool | %s" % (e, case))
        ctx.trans(len(s.ran))
    ctx.state()
    ctx.validated()
    ran = {}
    for who, st in s.ran:
        ran.setdefault(who, []).append(st)
    procs = [p.pid for p in sim.procs[1:]]
    who = procs if procs else [0]
    if workers > 1 and len(procs) > workers:
        raise Violation("%d processes for %d workers | %s" % (len(procs), workers, case))
    idle = [p for p in who if p not in ran]
    if idle:
        raise Violation("workers %s got no strategy | %s" % (idle, case))
    got = [st for p in who for st in ran[p]]
    ctx.outcome([len(ran[p]) for p in who])
    if pool is not None:
        if got != list(pool):
            raise Violation("searched %d strategies %s.., pool %d %s.. | %s" % (
                len(got), got[:3], len(pool), list(pool)[:3], case))
    else:
        if len(got) != len(set(got)) or set(got) != set(all_st):
            raise Violation("exhaustive pool: %d strategies, %d different, missing %s | %s" % (
                len(got), len(set(got)), sorted(set(all_st) - set(got))[:2], case))
        # the order is that of the single process pool
        listed = [tuple(x) for x in prob.get_strategies()]
        if got != listed:
            raise Violation("order of the strategies differs from get_strategies | %s" % case)
        p = s.problem(1)
        for st in listed:
            p.potential_points_strategy = st

"""Exhaustive execution of the solving methods over the bounded problem spaces.

`explore(hp, case, ctx, oracle)` runs every execution of a case on the real code and calls
oracle(prob, info) after each solving operation."""
import itertools

import gen

LONG = {"max_time_in_seconds": 100000}


class Info:
    """What the harness (not the code under test) knows about the execution."""

    def __init__(self, containers, items, rotation, strategy, method, sequence=None,
                 strip=False, height=None, min_height=None):
        self.containers = containers      # {cid: (W, L)} in order
        self.items = items                # {iid: (w, l)} in order, after orientation
        self.rotation = rotation
        self.strategy = strategy
        self.method = method
        self.sequence = sequence or list(items)
        self.strip = strip
        self.height = height              # container height in force at the call
        self.min_height = min_height

        self.history = None

    def __str__(self):
        return "%s containers=%s items=%s rotation=%s strategy=%s sequence=%s%s" % (
            self.method, self.containers, self.items, self.rotation, self.strategy, self.sequence,
            (" strip height=%s min=%s" % (self.height, self.min_height) if self.strip else "") +
            (" after %s" % self.history if self.history else ""))


def make(hp, case, items, rotation=True, cls=None, **settings):
    s = dict(LONG, rotation=rotation, **settings)
    cls = cls or hp.HyperPack
    if cls is hp.PointGenPack:
        s.pop("max_time_in_seconds", None)
    if case.get("strip"):
        p = cls(items=items, settings=s, strip_pack_width=case["W"])
        if case.get("height"):
            p.container_height = case["height"]
        if case.get("min_height"):
            p.container_min_height = case["min_height"]
        return p
    return cls(containers=containers_of(case), items=items, settings=s)


def containers_of(case):
    conts = case["conts"] if "conts" in case else [[case["W"], case["L"]]]
    return {gen.CONT_IDS[i]: {"W": W, "L": L} for i, (W, L) in enumerate(conts)}


def flat(structure, strip_height=None):
    out = {}
    for k, d in structure.items():
        v = tuple(d[x] for x in (("W", "L") if "W" in d else ("w", "l")))
        out[k] = v if strip_height is None else (v[0], strip_height)
    return out


def conts_info(case, prob):
    if case.get("strip"):
        return {gen.STRIP_ID: (case["W"], prob.container_height)}
    return flat(containers_of(case))


def set_pool(hp, pool):
    hp.constants.DEFAULT_POTENTIAL_POINTS_STRATEGY_POOL = tuple(pool)


def explore(hp, case, ctx, oracle):
    if case["k"] == "hist":
        import histories
        return histories.explore(case, ctx, oracle)
    getattr(_Kinds, case["k"])(hp, case, ctx, oracle)


def _note(ctx, prob, seen):
    ctx.validated()
    placed = sum(len(s) for s in prob.solution.values())
    ctx.trans(placed + 1)
    key = repr(prob.solution)
    if key not in seen:
        seen.add(key)
        ctx.state()
        ctx.outcome(key)


class _Kinds:
    @staticmethod
    def solve(hp, case, ctx, oracle):
        """Every order of the items x strategies x rotation, one container or strip."""
        seen = set()
        strats = gen.STRATS[case["strats"]]
        for order in gen.orders([tuple(i) for i in case["items"]]):
            items = gen.ids(order)
            for rot in (False, True):
                prob = make(hp, case, items, rot)
                height = prob.container_height
                ci, ii = conts_info(case, prob), flat(items)
                for st in strats:
                    prob.potential_points_strategy = st
                    prob.solve()
                    _note(ctx, prob, seen)
                    oracle(prob, Info(ci, ii, rot, st, "solve", None, bool(case.get("strip")),
                                      height, case.get("min_height")))

    @staticmethod
    def seq(hp, case, ctx, oracle):
        """solve(sequence=...) for every permutation of the ids."""
        seen = set()
        items = gen.ids([tuple(i) for i in case["items"]])
        for rot in (False, True):
            prob = make(hp, case, items, rot)
            height = prob.container_height
            ci, ii = conts_info(case, prob), flat(items)
            for st in gen.STRATS[case["strats"]]:
                prob.potential_points_strategy = st
                for perm in itertools.permutations(items):
                    prob.solve(sequence=list(perm))
                    _note(ctx, prob, seen)
                    oracle(prob, Info(ci, ii, rot, st, "solve(sequence)", list(perm),
                                      bool(case.get("strip")), height, case.get("min_height")))

    @staticmethod
    def local(hp, case, ctx, oracle):
        seen = set()
        for order in gen.orders([tuple(i) for i in case["items"]]):
            items = gen.ids(order)
            for rot in (False, True):
                for st in gen.STRATS[case["strats"]]:
                    for throttle in (True, False):
                        prob = make(hp, case, items, rot)
                        prob.potential_points_strategy = st
                        height = prob.container_height
                        ci = conts_info(case, prob)
                        prob.local_search(throttle=throttle)
                        _note(ctx, prob, seen)
                        oracle(prob, Info(ci, flat(items), rot, st, "local_search", None,
                                          bool(case.get("strip")), height, case.get("min_height")))

    @staticmethod
    def hyper(hp, case, ctx, oracle):
        seen = set()
        pool = [tuple(s) for s in case["pool"]] if case.get("pool") else None
        if pool:
            set_pool(hp, pool)
        for order in gen.orders([tuple(i) for i in case["items"]])[:case.get("orders", 10**9)]:
            items = gen.ids(order)
            for rot in (False, True):
                for orient in (None, "wide", "long"):
                    for sort in (None, ("area", True), ("perimeter", False)):
                        prob = make(hp, case, items, rot)
                        height = prob.container_height
                        ci = conts_info(case, prob)
                        prob.hypersearch(orientation=orient, sorting_by=sort,
                                         _exhaustive=pool is None)
                        _note(ctx, prob, seen)
                        oracle(prob, Info(ci, flat(prob.items), rot, None, "hypersearch", None,
                                          bool(case.get("strip")), height, case.get("min_height")))

    @staticmethod
    def words(hp, case, ctx, oracle):
        """solve(sequence=...) for every word of ids; one that repeats an id may be refused."""
        seen = set()
        items = gen.ids([tuple(i) for i in case["items"]])
        for rot in (False, True):
            prob = make(hp, case, items, rot)
            ci, ii, height = conts_info(case, prob), flat(items), prob.container_height
            for st in gen.STRATS[case["strats"]]:
                prob.potential_points_strategy = st
                for n in range(len(items) + 2):
                    for word in itertools.product(items, repeat=n):
                        try:
                            prob.solve(sequence=word if n % 2 else list(word))
                        except Exception:
                            if len(set(word)) == n:
                                raise
                            continue
                        _note(ctx, prob, seen)
                        oracle(prob, Info(ci, ii, rot, st, "solve(sequence)", list(word), bool(case.get("strip")),
                                          height, case.get("min_height")))

    @staticmethod
    def scaled(hp, case, ctx, oracle):
        """A small problem stretched: distances and gaps of many units."""
        seen = set()
        kx, ky, dims = case["kx"], case["ky"], [tuple(i) for i in case["items"]]
        big = dict(case, W=case["W"] * kx, L=case["L"] * ky, height=case["L"] * ky)
        for order in [dims[i:] + dims[:i] for i in range(len(dims))] + [dims[::-1], sorted(dims)]:
            items = gen.ids([(w * kx, l * ky) for w, l in order])
            for rot in (False, True):
                prob = make(hp, big, items, rot)
                ci, ii, height = conts_info(big, prob), flat(items), prob.container_height
                for st in gen.STRATS[case["strats"]]:
                    prob.potential_points_strategy = st
                    prob.solve()
                    _note(ctx, prob, seen)
                    oracle(prob, Info(ci, ii, rot, st, "solve", None, bool(case.get("strip")), height))

    @staticmethod
    def many(hp, case, ctx, oracle):
        seen = set()
        items = gen.ids([tuple(i) for i in case["items"]])
        for rot in (False, True):
            prob = make(hp, case, items, rot)
            ci, ii, height = conts_info(case, prob), flat(items), prob.container_height
            for st in gen.FULL[:3]:
                prob.potential_points_strategy = st
                for seq in (None, list(items)[::-1], list(items)[::2] + list(items)[1::2]):
                    prob.solve(sequence=seq)
                    _note(ctx, prob, seen)
                    oracle(prob, Info(ci, ii, rot, st, "solve", seq, bool(case.get("strip")), height))

    @staticmethod
    def bench(hp, case, ctx, oracle):
        """A shipped data set under a range of the 720 default strategies."""
        seen = set()
        mod = getattr(hp.benchmarks.datasets.hopper_and_turton_2000, case["name"])
        items = getattr(mod, case["set"])
        for rot in (False, True):
            s = {"rotation": rot}
            if case.get("strip"):
                W = list(mod.containers.values())[0]["W"]
                prob = hp.HyperPack(items=items, settings=s, strip_pack_width=W)
                ci = {gen.STRIP_ID: (W, prob.container_height)}
            else:
                prob = hp.HyperPack(containers=mod.containers, items=items, settings=s)
                ci = flat(mod.containers)
            height = prob.container_height
            for st in gen.POOL720[case["lo"]:case["hi"]:case.get("step", 1)]:
                prob.potential_points_strategy = st
                prob.solve()
                _note(ctx, prob, seen)
                oracle(prob, Info(ci, flat(items), rot, st, "solve", None,
                                  bool(case.get("strip")), height))


# ------------------------------------------------------------------ case lists
def solve_cases(tier):
    for W, L, items, strats in gen.small_space(tier):
        yield {"k": "solve", "W": W, "L": L, "items": items, "strats": strats}


def strip_cases(tier):
    """Strip problems: every multiset; heights default and every small limit."""
    q = tier == "quick"
    for n, alpha, widths in ((1, gen.dims(3), (1, 2, 3)), (2, gen.dims(3), (2, 3, 4)),
                             (3, gen.dims(3) if not q else gen.dims(2) + [(1, 3), (3, 1)], (3, 4)),
                             (4, [(1, 1), (1, 2), (2, 1), (3, 1)], (3,) if q else (3, 4, 5))):
        for ms in gen.multisets(alpha, n):
            for W in widths:
                for h in (0, 1, 2, 3, 5):
                    yield {"k": "solve", "strip": 1, "W": W, "height": h, "items": list(ms),
                           "strats": "few" if n < 4 else "default"}
    # heights above the default one, items that need them
    for W, ms, hs in ((1, [(1, 9), (1, 8), (1, 3)], (11, 17, 18, 20, 25)), (2, [(2, 19), (2, 4), (1, 3)], (21, 23, 24, 30)),
                      (3, [(3, 29), (2, 31), (1, 40)], (31, 40, 60, 61, 100)), (1, [(1, 300)], (299, 300, 301))):
        for h in hs:
            yield {"k": "solve", "strip": 1, "W": W, "height": h, "items": ms, "strats": "few"}


def large_cases(tier):
    """Containers of many units of area with one of them or one row left."""
    for W, L in [(400, 400), (1100, 1000), (2, 30000), (30000, 2), (317, 316)] + ([] if tier == "quick" else [
            (2000, 1500), (1, 10 ** 5), (10 ** 5, 1)]):
        for ms in ([(W, L - 1), (W - 1, 1), (1, 1)], [(W - 1, L), (1, L - 1), (1, 1)], [(W, L - 1), (W - 2, 1), (1, 1), (1, 1)]):
            if all(w > 0 and l > 0 for w, l in ms):
                yield {"k": "solve", "conts": [(W, L)], "items": ms, "strats": "default"}
        yield {"k": "solve", "conts": [(W, L), (2, 1)], "items": [(W, L - 1), (W - 1, 1), (1, 1), (2, 1)], "strats": "default"}


def many_cases(tier):
    """Many items, many containers: sizes in turn."""
    sizes = [[(2, 1)], [(1, 1), (2, 3), (3, 1)], [(5, 2), (1, 4), (3, 3), (2, 1), (1, 1)], [(9, 7), (4, 4), (1, 6), (2, 2)]]
    for n in (9, 16, 33, 65, 72, 73, 100, 101, 129, 200, 257) + (() if tier == "quick" else (300, 513, 1025)):
        for pat in sizes:
            items = [pat[k % len(pat)] for k in range(n)]
            area = sum(w * l for w, l in items)
            side = max(9, int(area ** 0.5) + 1)
            for conts in ([(side, side)], [(side // 2 + 4, side // 2 + 3)] * 3, [(9, 3 * side)], [(7, 5)] * min(n, 40)):
                yield {"k": "many", "conts": conts, "items": items}
            yield {"k": "many", "strip": 1, "W": side, "items": items}


STRETCHED = [
    (6, 6, [(1, 1), (4, 1), (1, 2), (2, 2), (1, 3), (3, 1), (2, 1)]),
    (5, 7, [(1, 4), (2, 1), (1, 1), (3, 1), (1, 2), (2, 2)]),
    (7, 5, [(4, 1), (1, 2), (1, 1), (1, 3), (2, 1), (2, 2)]),
    (8, 8, [(3, 2), (1, 5), (5, 1), (2, 3), (1, 1), (2, 2), (4, 1)]),
]


def scaled_cases(tier, strats="few"):
    """Small problems stretched in one or both directions."""
    for W, L, items in STRETCHED:
        for kx, ky in [(20, 1), (1, 20), (43, 1), (1, 43), (60, 1), (1, 60), (101, 1), (1, 101), (257, 1), (1, 257), (30, 30)] + (
                [] if tier == "quick" else [(1001, 1), (1, 1001), (101, 30), (30, 101), (2500, 1), (1, 2500)]):
            yield {"k": "scaled", "W": W, "L": L, "items": items, "kx": kx, "ky": ky, "strats": strats}
            if kx != ky:
                yield {"k": "scaled", "strip": 1, "W": W, "L": L, "items": items, "kx": kx, "ky": ky, "strats": "few"}


def word_cases(tier):
    """Sequences that leave out or repeat ids."""
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for ms in gen.multisets([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)], n):
            for where in ({"conts": [(3, 3)]}, {"conts": [(2, 1), (2, 2)]}, {"strip": 1, "W": 3}, {"strip": 1, "W": 3, "height": 2}):
                yield dict(where, k="words", items=list(ms), strats="default")


def unfit_cases(tier):
    """Many items without room before, between and after those that have."""
    for n in (11, 17, 21, 33, 51, 65, 101, 129, 201, 257, 301, 501, 513, 1001, 1025, 2001, 2049) + (
            () if tier == "quick" else (4097, 5001, 8193)):
        for fit in ([n], [n, n + 1, n + 2], [0, n // 2, n + 2], [n // 3, n + 1]):
            items = [(9 - k % 2, 9) for k in range(n)]
            for k, i in enumerate(fit):
                items.insert(i, ((1, 1), (2, 1), (1, 2))[k])
            yield {"k": "many", "conts": [(3, 2), (1, 2), (1, 1)], "items": items}
            yield {"k": "many", "strip": 1, "W": 3, "items": items}


def multi_cases(tier):
    q = tier == "quick"
    conts = [(1, 2), (2, 2), (3, 2), (2, 3)]
    for k in (2, 3):
        for cs in itertools.product(conts, repeat=k):
            for n in (1, 2, 3) if q or k == 3 else (1, 2, 3, 4):
                alpha = gen.dims(2) + [(3, 1), (1, 3)] if n < 3 else [(1, 1), (2, 1), (1, 2), (2, 2)]
                for ms in gen.multisets(alpha, n):
                    yield {"k": "solve", "conts": list(cs), "items": list(ms), "strats": "default"}


POOLS = [
    [gen.DEFAULT],
    [("B", "A") + gen.SUFFIX, ("A", "B") + gen.SUFFIX],
    [("C", "D"), ("A",), ("B", "A_")],
    [("A", "B", "C", "D", "A_", "B_") + gen.SUFFIX, ("B_", "A_", "D", "C", "B", "A") + gen.SUFFIX,
     ("B", "D", "A", "C", "B_", "A_") + gen.SUFFIX],
]


def search_cases(tier, strip=True):
    q = tier == "quick"
    alpha = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)]
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for ms in gen.multisets(alpha if n < 4 else [(1, 2), (3, 1), (2, 1), (2, 2)], n):
            for conts in ([(3, 3)], [(4, 3)], [(2, 3), (3, 2)]):
                yield {"k": "local", "conts": conts, "items": list(ms), "strats": "default"}
                if n < 4:
                    for pool in POOLS[1:] if n == 3 else POOLS[2:3]:
                        yield {"k": "hyper", "conts": conts, "items": list(ms), "pool": pool,
                               "orders": 2}
            if strip:
                for h, mh in ((0, 0), (3, 0), (0, 2), (4, 3), (5, 1)):
                    yield {"k": "local", "strip": 1, "W": 3, "height": h, "min_height": mh,
                           "items": list(ms), "strats": "default" if n > 2 else "few"}
                    if n < 4:
                        yield {"k": "hyper", "strip": 1, "W": 3, "height": h, "min_height": mh,
                               "items": list(ms), "pool": POOLS[3], "orders": 2}


def bench_cases(tier, strip=False):
    for name in ("C1", "C2", "C3", "C4", "C5", "C6", "C7"):
        step = {"C1": 1, "C2": 1, "C3": 1, "C4": 1, "C5": 1, "C6": 2, "C7": 4}[name]
        if tier == "quick":
            step = {"C1": 3, "C2": 7, "C3": 13, "C4": 40, "C5": 60, "C6": 90, "C7": 90}[name]
        for s in ("items_a", "items_b", "items_c"):
            for lo in range(0, 720, 90):
                yield {"k": "bench", "name": name, "set": s, "lo": lo, "hi": lo + 90, "step": step}
                if strip and lo == 0:
                    yield {"k": "bench", "strip": 1, "name": name, "set": s, "lo": lo,
                           "hi": lo + 90, "step": step * 5}

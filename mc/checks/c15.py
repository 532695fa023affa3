import itertools

import gen
import mp
import packspace as ps
import trace
from core import Violation

ID = "C15"
PIN = True
BOUNDS = {
    "quick": "strips of width 2-4, every multiset of <=3 items (4 in part) in every order, container heights "
             "default and tight, minimum heights, rotation, several strategies: local_search (repeated), "
             "hypersearch over pools of 2-4 strategies in one process and with 2-3 workers; 3-20 items "
             "with one that is easily missed; every sequence of 2-4 complete / incomplete, better / worse answers "
             "for 2-257 items",
    "thorough": "up to 40 items, answers for up to 1001, 4-5 items, widths 2-5, all pools",
}
ORACLE = ("recorded evaluations: height before each evaluation, acceptance recomputed from values and item "
          "counts, heights measured on the placements")
NOTE = ("An incomplete initial construction counts as no solution with all items; until a complete one is "
        "accepted the property demands nothing.")
hp = mp.hp
STS = [("A", "B", "C", "D", "A_", "B_") + gen.STRIP_SUFFIX, ("B", "A"), ("C", "D", "A_"), ("A",)]
POOLS = [[STS[1], STS[0]], [STS[3], STS[2], STS[0]],
         [("B_", "A_", "D", "C", "B", "A") + gen.STRIP_SUFFIX, ("A", "B_"), ("E", "B"), ("D", "A", "B")]]


def cases(tier):
    q = tier == "quick"
    for n, alpha, widths in ((1, gen.dims(3), (2, 3)), (2, gen.dims(3), (2, 3, 4)),
                             (3, [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)], (2, 3, 4)),
                             (4, [(1, 2), (2, 1), (3, 1), (2, 2)], (3, 4)),
                             (5, [(1, 2), (2, 1), (1, 3)], (3,) if q else (3, 4, 5))):
        if n > 1 and not q:
            alpha = gen.dims(3) if n < 4 else alpha
        for ms in gen.multisets(alpha, n):
            for W in widths:
                area = sum(w * l for w, l in ms)
                for h, mh in ((0, 0), (-(-area // W), 0), (-(-area // W) + 1, 0), (0, 2), (6, -(-area // W) + 1),
                              (5, 5)):
                    if n == 5 and q and (h, mh) not in ((0, 0), (0, 2)):
                        continue
                    yield {"strip": 1, "W": W, "height": h, "min_height": min(mh, h) if h else mh,
                           "items": list(ms)}
    for n in (2, 3, 9, 17, 33, 63, 64, 65, 70, 100, 101, 129, 200, 257) + (() if q else (300, 513, 1001)):
        for mh in (0, 2):
            for start in "ic":
                yield {"k": "answers", "n": n, "min_height": mh, "start": start}
    for n in (3, 8, 16, 17, 20) + (() if q else (24, 32, 33, 40)):
        for W in (3, 4, 5):
            for mh in (0, 8):
                yield {"k": "bulky", "n": n, "W": W, "min_height": mh}
    for n in (6, 8, 10, 12, 16, 17, 20) + (() if q else (24, 32, 33, 40)):
        for a in (1, 2, 5):
            for W in (5, 7):
                for mh in (0, 8):
                    yield {"k": "many", "n": n, "W": W, "a": a, "min_height": mh, "sts": 4 if n < 12 else 1}


class Answers(hp.HyperPack):
    """A search whose packings are given: c/i complete or not, b/w better or worse, row length."""

    script, at, W = (), 0, 300

    def answer(self, kind):
        if kind not in self.cache:
            n, ids = self.n - (kind[0] == "i"), list(self.items)
            self.cache[kind] = {k: [j % kind[2], j // kind[2], 1, 1] for j, k in enumerate(ids[:n])}
        if kind[1] == "b":
            self.best += 0.001
        self.solution = {gen.STRIP_ID: self.cache[kind]}
        self.obj_val_per_container = {gen.STRIP_ID: self.best if kind[1] == "b" else self.best - 0.01}

    def get_init_solution(self):
        self.at, self.best, self.cache, self.n = 0, 0.1, {}, len(self.items)
        self.answer((self.script[0][0], "b", 1))
        return self.get_solution()

    def evaluate_node(self, sequence):
        self.at += 1
        if self.at < len(self.script):
            return self.answer(self.script[self.at] + (self.at + 1,))
        self.answer(("c", "w", 1))


def answers(case, ctx):
    """Every sequence of complete, incomplete, better and worse answers."""
    n, mh = case["n"], case["min_height"]
    cls = trace.recorder(Answers)
    items = gen.ids([(1, 1)] * n)
    for script in itertools.product(["cb", "ib", "cw", "iw"], repeat=4 if n < 40 else 2):
        p = ps.make(hp, dict(case, strip=1, W=Answers.W, height=n + 3), items, True, cls)
        p.script = [(case["start"], "b")] + [tuple(x) for x in script]
        one_local(p, case, ctx, n, mh, "%s answers %s" % (case, script))


def bulky(case, ctx):
    """Many equal items and one that is easily missed."""
    n, W, mh = case["n"], case["W"], case["min_height"]
    cls = trace.recorder(hp.HyperPack)
    for small, big in itertools.product([(2, 2), (1, 1), (2, 1)], [(1, 7), (W, 1), (W, 3), (2, 5), (1, n)]):
        for at in (0, 1, n // 2, n - 1):
            dims = [small] * n
            dims[at] = big
            area = sum(w * l for w, l in dims)
            for h in (0, -(-area // W) + 1, -(-area // W) + 3):
                c = dict(case, height=h, strip=1, min_height=min(mh, h) if h else mh)
                for rot in (False, True):
                    p = ps.make(hp, c, gen.ids(dims), rot, cls)
                    p.potential_points_strategy = STS[0]
                    one_local(p, c, ctx, n, c["min_height"], "%s, %d items %s, no %d %s, rotation %s" % (
                        c, n, small, at, big, rot))


def many(case, ctx):
    """Many items, heights at which packings miss some of them."""
    n, W, mh = case["n"], case["W"], case["min_height"]
    cls = trace.recorder(hp.HyperPack)
    dims = [ALPHA[(k * case["a"] + k // 3) % len(ALPHA)] for k in range(n)]
    area = sum(w * l for w, l in dims)
    for extra in (0, 1, 2, 3):
        h = -(-area // W) + extra
        c = dict(case, strip=1, height=h, min_height=min(mh, h))
        items = gen.ids(dims)
        for rot in (False, True):
            for st in STS[:case["sts"]]:
                p = ps.make(hp, c, items, rot, cls)
                p.potential_points_strategy = st
                one_local(p, c, ctx, n, c["min_height"], "%s, %d items %s.. rotation %s strategy %s" % (c, n, dims[:6], rot, st))


ALPHA = [(2, 3), (2, 1), (1, 2), (3, 1), (2, 2), (1, 3)]


def complete(r, n):
    return trace.placed(r.solution) == n


def heights(log, end, n, mh, info):
    """Heights over a log; returns per run (init + nodes) the retained record."""
    runs = []
    for k, r in enumerate(log):
        nxt = log[k + 1].before if k + 1 < len(log) else end
        if nxt is None:
            # a worker's last evaluation: its height afterwards isn't observed
            nxt = max(trace.top(r.solution), mh or 0) if (
                r.kind != "init" and r.value > runs[-1].value and (mh or complete(r, n))) else r.before
        if nxt > r.before:
            raise Violation("the strip height grows from %s to %s | %s" % (r.before, nxt, info))
        if mh and nxt < mh:
            raise Violation("strip height %s below the minimum height %s | %s" % (nxt, mh, info))
        if r.after != r.before:
            raise Violation("evaluating a packing changes the height %s to %s | %s" % (r.before, r.after, info))
        new = max(trace.top(r.solution), mh or 0)
        if r.kind == "init":
            runs.append(r)
            if nxt not in (r.before, new):
                raise Violation("strip height becomes %s after an initial solution of height %s | %s" % (
                    nxt, new, info))
            continue
        best = runs[-1]
        if not mh and complete(best, n) and r.value > best.value and not complete(r, n):
            # rejected: must leave the height
            if nxt != r.before:
                raise Violation("a solution without all items changes the height to %s | %s" % (nxt, info))
        if r.value > best.value and (mh or complete(r, n)):
            runs[-1] = r
            if nxt != new:
                raise Violation("strip height is %s after accepting a solution of height %s (minimum %s) | %s" % (
                    nxt, trace.top(r.solution), mh, info))
        elif nxt != r.before:
            raise Violation("strip height changes from %s to %s though nothing was accepted | %s" % (
                r.before, nxt, info))
    return runs


def result_ok(p, known, n, mh, info):
    """known: complete solutions accepted (or initial) before the end."""
    if mh or not known:
        return
    if trace.placed(p.solution) != n:
        raise Violation("returned %s lacks items although %s is known | %s" % (p.solution, known[0], info))
    low = min(trace.top(s) for s in known)
    if trace.top(p.solution) > low:
        raise Violation("returned height %s although height %s was accepted: %s | %s" % (
            trace.top(p.solution), low, p.solution, info))


def one_local(p, case, ctx, n, mh, info):
    start = p.container_height
    p.log = []
    p.local_search()
    log, p.log = p.log, None
    if log[0].before > start:
        raise Violation("the strip height grows from %s to %s | %s" % (start, log[0].before, info))
    kept = heights(log, p.container_height, n, mh, info)
    ctx.state()
    ctx.trans(len(log))
    ctx.validated()
    ctx.outcome(p.solution)
    known = [r.solution for r in (log[0], kept[0]) if complete(r, n)]
    result_ok(p, known, n, mh, info)
    if p.solution != kept[0].solution:
        raise Violation("returned %s, last accepted %s | %s" % (p.solution, kept[0].solution, info))


def run(case, ctx):
    if "k" in case:
        return globals()[case["k"]](case, ctx)
    n, mh = len(case["items"]), case["min_height"]
    cls = trace.recorder(hp.HyperPack)
    for order in gen.orders([tuple(i) for i in case["items"]])[:24]:
        items = gen.ids(order)
        for rot in (False, True):
            for st in STS:
                p = ps.make(hp, case, items, rot, cls)
                p.potential_points_strategy = st
                for again in range(2):
                    info = "local_search no %d, %s, items %s rotation %s strategy %s" % (
                        again + 1, case, items, rot, st)
                    one_local(p, case, ctx, n, mh, info)
    for order in gen.orders([tuple(i) for i in case["items"]])[:3]:
        items = gen.ids(order)
        for rot in (False, True):
            for k, pool in enumerate(POOLS):
                mp.set_pool(pool)
                for sort, orient in ((None, None), (("area", True), "wide")) if n > 1 else ((None, None),):
                    hyper(case, ctx, cls, items, rot, pool, sort, orient, n, mh, (2, 3) if k == 2 else (2,))


def hyper(case, ctx, cls, items, rot, pool, sort, orient, n, mh, workers):
    info = "hypersearch %s items %s rotation %s pool %s sorting %s orientation %s" % (
        case, items, rot, pool, sort, orient)
    p = ps.make(hp, case, items, rot, cls)
    p.potential_points_strategy = STS[0]
    p.log = []
    p.hypersearch(orientation=orient, sorting_by=sort, _exhaustive=False)
    log, p.log = p.log, None
    kept = heights(log, p.container_height, n, mh, info)
    ctx.state()
    ctx.trans(len(log))
    ctx.validated()
    ctx.outcome(p.solution)
    known, top_value = [], -1
    for r in kept:
        if complete(r, n) and r.value > top_value:
            known.append(r.solution)
        top_value = max(top_value, r.value)
    result_ok(p, known, n, mh, info)
    first = log[0]
    for w in workers:
        with mp.Recorder() as rec:
            sim, q = mp.one(lambda: ps.make(hp, case, items, rot, workers_num=w),
                            orientation=orient, sorting_by=sort)
        ctx.state()
        ctx.trans()
        ctx.outcome(q.solution)
        f = ps.make(hp, case, items, rot)
        f.sort_items(sorting_by=sort)
        f.orient_items(orientation=orient)
        f.solve()
        known = [f.solution] if trace.placed(f.solution) == n else []
        start = ps.make(hp, case, items, rot).container_height
        for pid, log in rec.logs.items():
            where = "worker %d of %d, %s" % (pid, w, info)
            ctx.trans(len(log))
            if log[0].before != start:
                raise Violation("starts with strip height %s instead of %s | %s" % (log[0].before, start, where))
            top_value = -1
            for r in heights(log, None, n, mh, where):
                if complete(r, n) and r.value > top_value:
                    known.append(r.solution)
                top_value = max(top_value, r.value)
        result_ok(q, known, n, mh, "%d workers, %s" % (w, info))
        if f.calculate_obj_value() > q.calculate_obj_value() + 1e-12:
            raise Violation("%d workers: value %s below the initial one %s | %s" % (
                w, q.calculate_obj_value(), f.calculate_obj_value(), info))

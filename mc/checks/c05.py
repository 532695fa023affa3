import itertools

import env
import gen
import model
import packspace as ps
from core import Violation

ID = "C05"
BOUNDS = {
    "quick": "every ordered list of 1-3 containers (4 in part) over {1x2,2x2,3x2,2x3,4x1} x every "
             "multiset of <=3 items in every order (4 items for 2 containers) x rotation x 4 strategies; 9-257 items in up to 40 containers, up to 2049 items without room",
    "thorough": "up to 4 containers, 5 items, 17 strategies",
}
ORACLE = ("recomposition: container k is solved alone by a fresh instance with the items left "
          "by 1..k-1; appended containers never change earlier ones")
CONTS = [(1, 2), (2, 2), (3, 2), (2, 3), (4, 1)]
hp = env.hyperpack()


def cases(tier):
    q = tier == "quick"
    for k, ns in ((2, (1, 2, 3)), (3, (1, 2, 3)), (2, (4,)), (4, (2,))) + (() if q else ((3, (4,)), (4, (3,)), (2, (5,)))):
        alpha = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)]
        for n in ns:
            for cs in itertools.product(CONTS if k < 4 else CONTS[1:4], repeat=k):
                for ms in gen.multisets(alpha if n < 3 else alpha[:4], n):
                    yield {"conts": [list(c) for c in cs], "items": [list(m) for m in ms],
                           "strats": ("few" if n < 3 else "default") if q else "few"}
    # many containers, many items, containers left empty in between
    pat = [(2, 2), (1, 3), (4, 1), (1, 1), (3, 3)]
    for k in (5, 8, 11, 17, 33):
        for n in (k - 2, k, 3 * k):
            for cs in ([CONTS[i % 5] for i in range(k)], [(3, 3) if i % 4 else (1, 1) for i in range(k)],
                       [(2, 2)] * (k - 1) + [(4, 3)]):
                yield {"conts": [list(c) for c in cs], "items": [list(pat[i * i % 5]) for i in range(n)],
                       "strats": "default", "many": 1}
    # many items without room
    for case in ps.unfit_cases(tier):
        if "conts" in case:
            yield {"conts": case["conts"], "items": case["items"], "strats": "default", "many": 1}


def alone(cache, W, L, items, rot, st):
    """One container packed alone by a fresh instance."""
    key = (W, L, tuple(items.items()), rot, st)
    if key not in cache:
        d = {i: {"w": w, "l": l} for i, (w, l) in items.items()}
        p = hp.HyperPack(containers={"x": {"W": W, "L": L}}, items=d, settings={"rotation": rot})
        p.potential_points_strategy = st
        p.solve()
        cache[key] = ({i: list(s) for i, s in p.solution["x"].items()}, p.obj_val_per_container["x"])
        if len(items) > 10:
            # no item may be forgotten in either way
            placed, _, _ = model.construct(W, L, [(i, w, l) for i, (w, l) in items.items()], st, rot)
            want = {i: [x, y, w, l] for i, x, y, w, l in placed}
            if want != cache[key][0]:
                raise Violation("alone %s, construction %s | container %sx%s, %d items, rotation %s strategy %s" % (
                    cache[key][0], want, W, L, len(items), rot, st))
    return cache[key]


def run(case, ctx):
    conts = case["conts"]
    cache, seen = {}, set()
    given = [tuple(i) for i in case["items"]]
    for order in [given] if case.get("many") else gen.orders(given):
        items = gen.ids(order)
        for rot in (False, True):
            probs = [ps.make(hp, {"conts": conts[:m]}, items, rot) for m in range(1, len(conts) + 1)]
            for st in gen.STRATS[case["strats"]]:
                # sequences: the stored one and its reverse given explicitly
                for sequence in (None, list(items)[::-1]):
                    left = {i: (items[i]["w"], items[i]["l"]) for i in (sequence or items)}
                    want, vals = {}, {}
                    for k, (W, L) in enumerate(conts):
                        if left:
                            want[gen.CONT_IDS[k]], vals[gen.CONT_IDS[k]] = alone(cache, W, L, left, rot, st)
                        else:
                            want[gen.CONT_IDS[k]], vals[gen.CONT_IDS[k]] = {}, 0
                        left = {i: d for i, d in left.items() if i not in want[gen.CONT_IDS[k]]}
                    for m, p in enumerate(probs, 1):
                        p.potential_points_strategy = st
                        p.solve(sequence=sequence)
                        ps._note(ctx, p, seen)
                        head = {gen.CONT_IDS[k]: want[gen.CONT_IDS[k]] for k in range(m)}
                        got = {c: {i: list(s) for i, s in v.items()} for c, v in p.solution.items()}
                        info = "containers %s items %s rotation %s strategy %s sequence %s" % (
                            conts[:m], items, rot, st, sequence)
                        if got != head or list(got) != list(head):
                            raise Violation("solution %s, container by container %s | %s" % (got, head, info))
                        for c in head:
                            if abs(p.obj_val_per_container[c] - vals[c]) > 1e-9:
                                raise Violation("value of %s is %s, alone %s | %s" % (
                                    c, p.obj_val_per_container[c], vals[c], info))

"""Solves a fixed family of problems; prints a digest of every result (C06)."""
import hashlib
import json
import sys


def problems(gen):
    A = [(1, 2), (2, 1), (3, 1), (2, 2)]
    for n in (2, 3, 4):
        for ms in gen.multisets(A, n):
            yield list(ms)


def results(hp, part):
    import gen
    out = []

    def note(p):
        best = getattr(p, "best_strategy", None)
        out.append(json.dumps([p.solution, p.obj_val_per_container, list(p.items), list(best) if best else None,
                               p.container_height]))

    for k, ms in enumerate(problems(gen)):
        items = {("item %d" % (i * 7919 % 31)): {"w": w, "l": l} for i, (w, l) in enumerate(ms)}
        for strip in (0, 1):
            kw = {"items": items, "settings": {"workers_num": 1, "max_time_in_seconds": 10 ** 6}}
            kw.update({"strip_pack_width": 4} if strip else {
                "containers": {"alpha": {"W": 3, "L": 2}, "beta": {"W": 2, "L": 2}, "gamma": {"W": 2, "L": 3}}})
            p = hp.HyperPack(**kw)
            if part == "solve":
                for st in gen.FULL + gen.ROTATIONS:
                    p.potential_points_strategy = st
                    p.solve()
                    note(p)
                    p.solve(sequence=list(items)[::-1])
                    note(p)
                for by in ("area", "perimeter", "longest_side_ratio"):
                    for rev in (True, False):
                        p.sort_items((by, rev))
                        p.solve()
                        note(p)
            elif part == "local":
                for st in gen.FULL:
                    p = hp.HyperPack(**kw)
                    p.potential_points_strategy = st
                    p.local_search()
                    note(p)
            elif k % 9 == 0:
                p.hypersearch(_exhaustive=k % 18 == 0)
                note(p)
    if part == "local":
        mod = hp.benchmarks.datasets.hopper_and_turton_2000.C1
        p = hp.HyperPack(containers=mod.containers, items=mod.items_a)
        p.settings = {"max_time_in_seconds": 10 ** 6}
        p.local_search()
        note(p)
    return out


def digest(hp, part):
    h = hashlib.sha256()
    res = results(hp, part)
    for r in res:
        h.update(r.encode())
    return len(res), h.hexdigest()


if __name__ == "__main__":
    import os
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import env
    print(json.dumps(digest(env.hyperpack(), sys.argv[1])))

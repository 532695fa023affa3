"""Multi process hypersearches under every start method of processes; one JSON line per run."""
import json
import multiprocessing
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

PROBLEMS = [
    {"items": {"i0": (1, 2), "a1": (3, 1), "z2": (2, 2)}, "containers": {"c": (3, 4)}},
    {"items": {"i0": (2, 2), "a1": (2, 1), "z2": (1, 3)}, "containers": {"c": (3, 3), "a": (2, 1)}, "rotation": False},
    {"items": {"i0": (1, 3), "a1": (2, 2), "z2": (2, 1), "m": (1, 1)}, "strip": 4, "height": 6},
    {"items": {"i0": (1, 3), "a1": (2, 2), "z2": (2, 1), "m": (1, 1)}, "strip": 4, "height": 3, "min": 2},
]


def main():
    import env
    hp = env.hyperpack()
    bad = 0

    def make(p, workers):
        st = {"workers_num": workers, "max_time_in_seconds": 1000, "rotation": p.get("rotation", True)}
        items = {k: {"w": w, "l": l} for k, (w, l) in p["items"].items()}
        if "strip" not in p:
            conts = {k: {"W": W, "L": L} for k, (W, L) in p["containers"].items()}
            return hp.HyperPack(containers=conts, items=items, settings=st)
        prob = hp.HyperPack(strip_pack_width=p["strip"], items=items, settings=st)
        prob.container_height = p["height"]
        if "min" in p:
            prob.container_min_height = p["min"]
        return prob

    for method in multiprocessing.get_all_start_methods():
        multiprocessing.set_start_method(method, force=True)
        for i, p in enumerate(PROBLEMS):
            for workers in (2, 3):
                hp.constants.DEFAULT_POTENTIAL_POINTS_STRATEGY_POOL = (
                    ("A", "B"), ("B", "A", "C"), ("A", "B", "C", "D", "A_", "B_", "A__", "B__", "F", "E"))
                one, many = make(p, 1), make(p, workers)
                one.hypersearch(_exhaustive=False)
                err = None
                try:
                    many.hypersearch(_exhaustive=False)
                except Exception as e:
                    err = "%s: %s" % (type(e).__name__, e)
                else:
                    a, b = one.calculate_obj_value(), many.calculate_obj_value()
                    # every worker of a strip shrinks its own
                    if "strip" not in p and abs(a - b) > 1e-9:
                        err = "value %s, single process finds %s" % (b, a)
                    if "strip" in p and "min" not in p and len(many.solution["strip-pack-container"]) != len(p["items"]):
                        err = "incomplete solution %s" % many.solution
                    f = make(p, 1)
                    f.sort_items()
                    f.orient_items()
                    f.potential_points_strategy = tuple(many.best_strategy)
                    f.solve()
                    v0 = f.calculate_obj_value()
                    f.local_search()
                    if not err and all(abs(v - b) > 1e-9 for v in (v0, f.calculate_obj_value())):
                        err = "value %s isn't the one of strategy %s" % (b, many.best_strategy)
                case = {"start": method, "problem": i, "workers": workers}
                print(json.dumps({"case": case, "error": err}), flush=True)
                bad |= err is not None
    return int(bad)


if __name__ == "__main__":
    sys.exit(main())

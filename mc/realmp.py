"""Runs stubbed multi process hypersearches with real processes; one JSON line per run."""
import json
import logging
import os
import signal
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env   # noqa: E402

hp = env.hyperpack(quiet=False)
POOL = [("A", "B"), ("B", "A"), ("A",), ("B",), ("A", "C"), ("B", "D")]
VALUES = [0.3, 0.005, 0.5, 0.3, 0.4, 0.01]
INIT = ("D", "C")


class Errors(logging.Handler):
    n = 0

    def emit(self, r):
        if r.levelno >= 40:
            self.n += 1


def main(which):
    errors = Errors()
    hp.loggers.hyperLogger.handlers[:] = [errors]
    hp.constants.DEFAULT_POTENTIAL_POINTS_STRATEGY_POOL = tuple(POOL)
    table = dict(zip(POOL, VALUES))
    fail, journal = {}, []

    def local_search(prob, *, throttle=True, _hypersearch=False, debug=False):
        st = tuple(prob.potential_points_strategy)
        how = fail.get(st)
        if how is None and journal:
            with open(journal[0], "a") as f:
                f.write(json.dumps([os.getpid(), st]) + "\n")
        if how == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        if how == "raise":
            raise RuntimeError("injected")
        iid = list(prob.items)[0]
        prob.solution = {"c": {iid: [2 + POOL.index(st), 1, 1, 1]}}
        prob.obj_val_per_container = {"c": table[st]}

    def distribution(workers, journal):
        """Which strategies share a worker, observed in an undisturbed run."""
        fd, path = tempfile.mkstemp()
        os.close(fd)
        journal.append(path)
        fail.clear()
        try:
            p = hp.HyperPack(containers={"c": {"W": 10, "L": 10}}, items={"i": {"w": 1, "l": 1}},
                             settings={"workers_num": workers, "max_time_in_seconds": 1000})
            p.hypersearch(_exhaustive=False)
            by = {}
            for line in open(path):
                who, st = json.loads(line)
                by.setdefault(who, []).append(tuple(st))
            return list(by.values())
        finally:
            journal.clear()
            os.unlink(path)

    hp.HyperPack.local_search = local_search
    if which == "schedule":
        plans = [{}]
    else:
        plans = [{s: h} for s in POOL for h in ("kill", "raise")] + [
            {POOL[0]: "kill", POOL[2]: "raise"}, {POOL[1]: "raise", POOL[5]: "kill"},
            {POOL[0]: "kill", POOL[2]: "kill", POOL[4]: "kill"},
            {POOL[0]: "kill", POOL[3]: "kill"},
            {s: "kill" for s in POOL}, {s: "raise" for s in POOL}]
    bad = 0
    for workers in (2, 3, 6):
        chunks = distribution(workers, journal)
        for size in (1, 200000):
            for plan in plans:
                fail.clear()
                fail.update(plan)
                errors.n = 0
                iid = "i" * size
                p = hp.HyperPack(containers={"c": {"W": 10, "L": 10}}, items={iid: {"w": 1, "l": 1}},
                                 settings={"workers_num": workers, "max_time_in_seconds": 1000})
                p.potential_points_strategy = INIT
                alive = [s for c in chunks if not any(x in plan for x in c) for s in c]
                err = None
                try:
                    p.hypersearch(_exhaustive=False)
                except hp.exceptions.MultiProcessError:
                    if alive:
                        err = "MultiProcessError though workers survive"
                else:
                    want = max([0.01] + [table[s] for s in alive])
                    st = tuple(p.best_strategy)
                    pos = [0, 0] if st == INIT else [2 + POOL.index(st), 1] if st in POOL else None
                    if not alive:
                        err = "no MultiProcessError though all workers failed"
                    elif abs(p.calculate_obj_value() - want) > 1e-12:
                        err = "value %s instead of %s" % (p.calculate_obj_value(), want)
                    elif pos is None or p.solution["c"][iid][:2] != pos or (
                            abs(table.get(st, 0.01) - want) > 1e-12):
                        err = "value %s, strategy %s, position %s do not belong together" % (
                            want, st, p.solution["c"][iid])
                    elif plan and not errors.n:
                        err = "no error logged"
                    elif not plan and errors.n:
                        err = "error logged without a failure"
                case = {"workers": workers, "id_length": size,
                        "fail": {"/".join(k): v for k, v in plan.items()}}
                print(json.dumps({"case": case, "error": err}), flush=True)
                bad |= err is not None
    return int(bool(bad))


sys.exit(main(sys.argv[1]))

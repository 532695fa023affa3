from fractions import Fraction

import env
import gen
import histories
import model
import packspace as ps
from core import Violation

ID = "C03"
BOUNDS = {
    "quick": "the C01 spaces: every order x rotation x strategies; strips, 2-3 containers, "
             "problems of 9-257 items and up to 40 containers, up to 2049 items without room, containers up to 1100x1000, small problems stretched up to 257-fold, every word of <=4 ids as sequence; local_search, hypersearch, data sets C1-C3, histories of up to 2 operations before solving",
    "thorough": "as quick on the deeper C01 space and all data sets",
}
ORACLE = "exact rational recomputation of every value from the reported placements"
TOL = 1e-9
hp = histories.hp


def cases(tier):
    yield from ps.solve_cases(tier)
    yield from ps.multi_cases(tier)
    yield from ps.large_cases(tier)
    yield from ps.many_cases(tier)
    yield from ps.unfit_cases(tier)
    yield from ps.scaled_cases(tier)
    yield from ps.word_cases(tier)
    yield from ps.strip_cases(tier)
    yield from ps.search_cases(tier)
    yield from histories.cases(tier)
    yield from ps.bench_cases(tier, strip=True)


def oracle(prob, info):
    vals = prob.obj_val_per_container
    if list(vals) != list(info.containers):
        raise Violation("values for %s, containers are %s | %s" % (list(vals), list(info.containers), info))
    exact = []
    for cid, (W, L) in info.containers.items():
        placed = [(i, *s) for i, s in prob.solution[cid].items()]
        v = model.value(W, L, placed, info.strip)
        exact.append(v)
        if abs(vals[cid] - v) > TOL:
            raise Violation("value of %r is %r, the placed items cover %s = %.6f | %s | %s"
                            % (cid, vals[cid], v, v, prob.solution, info))
    total = prob.calculate_obj_value()
    want = model.objective(exact)
    if abs(total - want) > TOL:
        raise Violation("objective %r, expected %.6f | %s | %s" % (total, want, prob.solution, info))


def run(case, ctx):
    ps.explore(hp, case, ctx, oracle)

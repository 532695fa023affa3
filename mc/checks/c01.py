import env
import gen
import histories
import model
import packspace as ps
from core import Violation

ID = "C01"
BOUNDS = {
    "quick": "all item multisets (<=6 items, dims <=3) in containers up to 6x5 x every order x "
             "rotation x strategy sets; strips width<=4 with height limits; 2-3 containers; "
             "problems of 9-257 items and up to 40 containers, up to 2049 items without room, containers up to 1100x1000, small problems stretched up to 257-fold, every word of <=4 ids as sequence; "
             "local_search/hypersearch on all problems <=4 items; Hopper-Turton C1-C3; histories of up to 2 "
             "operations (structure replacements, merges, searches, settings) before each solving method",
    "thorough": "as quick with full dims<=3 alphabets for 4 items, all strategies up to length 3, "
                "7 items, up to 1025 items and 8193 without room, stretched up to 2500-fold, all Hopper-Turton sets",
}
ORACLE = "geometric feasibility of the reported solution (exact integers)"
hp = histories.hp


def cases(tier):
    yield from ps.solve_cases(tier)
    yield from ps.multi_cases(tier)
    yield from ps.large_cases(tier)
    yield from ps.many_cases(tier)
    yield from ps.unfit_cases(tier)
    yield from ps.scaled_cases(tier)
    yield from ps.word_cases(tier)
    yield from ps.strip_cases(tier)
    yield from ps.search_cases(tier)
    yield from histories.cases(tier)
    yield from ps.bench_cases(tier, strip=True)


def oracle(prob, info):
    heights = {gen.STRIP_ID: info.height} if info.strip else None
    err = model.geometry_error(prob.solution, info.containers, info.items, heights)
    if err:
        raise Violation("%s | %s" % (err, info))
    if list(prob.solution) != list(info.containers):
        raise Violation("containers order %s | %s" % (list(prob.solution), info))


def run(case, ctx):
    ps.explore(hp, case, ctx, oracle)

import itertools

import env
import gen
import histories
import model
import packspace as ps
from core import Violation

ID = "C02"
BOUNDS = {
    "quick": "the C01 solve/strip/search/history spaces; every order x rotation on/off x strategy set; "
             "problems of 9-257 items and up to 40 containers, up to 2049 items without room, containers up to 1100x1000, small problems stretched up to 257-fold",
    "thorough": "as quick on the deeper C01 space",
}
ORACLE = ("rotation off: reported size = item size; rotation on: a turned item collides when "
          "not turned; placements replayed in order: the item placed at a point is the first "
          "of the remaining sequence that fits there in either orientation")
hp = histories.hp


def cases(tier):
    yield from ps.solve_cases(tier)
    yield from ps.multi_cases(tier)
    yield from ps.large_cases(tier)
    yield from ps.many_cases(tier)
    yield from ps.unfit_cases(tier)
    yield from ps.scaled_cases(tier)
    yield from ps.strip_cases(tier)
    yield from ps.search_cases(tier)
    yield from histories.cases(tier)
    yield from ps.bench_cases(tier)


def decisions_error(W, L, placed, sequence, items):
    """placed: [(iid, x, y, w, l)] in placement order; the decision at every placement."""
    rects, rem = [], list(sequence)
    for iid, x, y, w, l in placed:
        for jid in rem:
            w0, l0 = items[jid]
            straight = model.fits(W, L, x, y, w0, l0, rects)
            turned = model.fits(W, L, x, y, l0, w0, rects)
            if jid == iid:
                if (w, l) != (w0, l0) and straight:
                    return "item %r %s placed turned at %s though it fits unturned" % (
                        iid, (w0, l0), (x, y))
                break
            if straight or turned:
                return "item %r %s fits at %s%s but was skipped for %r" % (
                    jid, (w0, l0), (x, y), "" if straight else " turned", iid)
        rects.append((x, y, w, l))
        rem.remove(iid)
    return None


def oracle(prob, info):
    seq = list(info.sequence)
    for cid, placed in prob.solution.items():
        W, L = info.containers[cid]
        rects = {i: tuple(s) for i, s in placed.items()}
        if info.strip and info.method != "solve":
            # a search lowers the strip; the height the retained packing was constructed
            # with is unknown here but at least what its items reach
            L = min(L, max([y + l for x, y, w, l in rects.values()] or [L]))
        for iid, (x, y, w, l) in rects.items():
            w0, l0 = info.items[iid]
            if (w, l) == (w0, l0):
                continue
            if not info.rotation:
                raise Violation("rotation is disabled but %r %s is placed as %s | %s"
                                % (iid, (w0, l0), (w, l), info))
            others = [r for j, r in rects.items() if j != iid]
            if model.fits(W, L, x, y, w0, l0, others):
                raise Violation("%r %s is turned at %s although it fits unturned | %s"
                                % (iid, (w0, l0), (x, y), info))
        if info.method == "solve" and info.rotation:
            order = [(i, *r) for i, r in rects.items()]
            err = decisions_error(W, L, order, seq, info.items)
            if err and len(order) <= 6:
                # the order of the reported dictionary is not promised: any order will do
                if any(decisions_error(W, L, p, seq, info.items) is None
                       for p in itertools.permutations(order)):
                    err = None
            if err:
                raise Violation("%s | %s | %s" % (err, prob.solution, info))
        if info.method == "solve":
            # the origin of a container is always tried
            fit = [i for i in seq if model.fits(W, L, 0, 0, *info.items[i], [])
                   or (info.rotation and model.fits(W, L, 0, 0, *info.items[i][::-1], []))]
            if fit and not rects:
                raise Violation("item %r fits into the empty container %r in an allowed "
                                "orientation but was skipped | %s" % (fit[0], cid, info))
        for i in rects:
            seq.remove(i)


def run(case, ctx):
    ps.explore(hp, case, ctx, oracle)

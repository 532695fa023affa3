"""Reference model of the point generation construction, on rectangles.

A packing is a list of (x, y, w, l).  The only geometric primitive is `kind(x, y)`: the
unit cell is free (0), in the inside (1), on the border (2) or at a corner (3) of the item
that covers it.  Everything is exact integer arithmetic; the ratio tests use Fractions.
"""
from collections import deque
from fractions import Fraction

CLASSES = ("A", "B", "C", "D", "A_", "B_", "B__", "A__", "E", "F")
RATIO = Fraction(1, 5)
FREE, INSIDE, BORDER, CORNER = 0, 1, 2, 3
SOLID = (BORDER, CORNER)


def fits(W, L, x, y, w, l, placed):
    if x < 0 or y < 0 or x + w > W or y + l > L:
        return False
    for X, Y, w2, l2 in placed:
        if x < X + w2 and X < x + w and y < Y + l2 and Y < y + l:
            return False
    return True


class Packing:
    def __init__(self, W, L):
        self.W, self.L = W, L
        self.rects = []

    def kind(self, x, y):
        for X, Y, w, l in self.rects:
            if X <= x < X + w and Y <= y < Y + l:
                ex, ey = x in (X, X + w - 1), y in (Y, Y + l - 1)
                return CORNER if ex and ey else BORDER if ex or ey else INSIDE
        return FREE

    def fits(self, x, y, w, l):
        return fits(self.W, self.L, x, y, w, l, self.rects)

    def points_of_last(self):
        """The potential points the item placed last defines: [(class, point)]."""
        kind, W, L = self.kind, self.W, self.L
        X, Y, w, l = self.rects[-1]
        top, right = Y + l, X + w
        out = []

        # --- above the item's left edge: A (supported corner) or else
        #     A'/E (projection to the left) and A'' (unsupported corner)
        if top < L:
            free = kind(X, top) == FREE
            supported = free and (
                X == 0
                or (kind(X - 1, top - 1) in SOLID and kind(X - 1, top) in SOLID)
                or (kind(X - 1, top - 1) in (FREE, CORNER) and kind(X - 1, top) == CORNER)
            )
            if supported:
                out.append(("A", (X, top)))
            else:
                if X > 0 and kind(X - 1, top) == FREE and kind(X - 1, top - 1) == FREE:
                    stop = self._slide_left(X, top)
                    if stop is not None:
                        near = Fraction(X - stop, W) <= RATIO
                        out.append(("A_" if near else "E", (stop, top)))
                if free:
                    out.append(("A__", (X, top)))

        # --- right of the item's lower edge: B or else B'/F (projection down) and B''
        if right < W:
            free = kind(right, Y) == FREE
            supported = free and (
                Y == 0
                or (kind(right - 1, Y - 1) in SOLID and kind(right, Y - 1) in SOLID)
                or (kind(right - 1, Y - 1) in (FREE, CORNER) and kind(right, Y - 1) == CORNER)
            )
            if supported:
                out.append(("B", (right, Y)))
            else:
                if Y > 0 and kind(right, Y - 1) == FREE and kind(right - 1, Y - 1) == FREE:
                    stop = self._slide_down(right, Y)
                    if stop is not None:
                        near = Fraction(Y - stop, L) <= RATIO
                        out.append(("B_" if near else "F", (right, stop)))
                if free:
                    out.append(("B__", (right, Y)))

        # --- along the top edge: C, along the right edge: D
        if top < L:
            for x in range(X, right - 1):
                if kind(x, top) == CORNER and kind(x + 1, top) == FREE:
                    out.append(("C", (x + 1, top)))
        if right < W:
            for y in range(Y, top - 1):
                if kind(right, y) == CORNER and kind(right, y + 1) == FREE:
                    out.append(("D", (right, y + 1)))
        return out

    def _slide_left(self, X, top):
        for x in range(X - 1, -1, -1):
            here, below = self.kind(x, top), self.kind(x, top - 1)
            if here in SOLID and (below in SOLID or below == FREE):
                return x + 1
            if here == FREE and below == FREE and x == 0:
                return 0
        return None

    def _slide_down(self, right, Y):
        for y in range(Y - 1, -1, -1):
            here, left = self.kind(right, y), self.kind(right - 1, y)
            if here in SOLID and (left in SOLID or left == FREE):
                return y + 1
            if here == FREE and left in SOLID:
                return None
            if here == FREE and left == FREE and y == 0:
                return 0
        return None


def construct(W, L, items, strategy, rotation, strip=False, stats=None, point=(0, 0), pending=()):
    """items: [(id, w, l)] in sequence order; point: the first one tried; pending: [(class,
    point)] potential points there are at the beginning.
    Returns placements [(id, x, y, w, l)] in order, remaining items, point queues as they
    were before the last point was taken."""
    pack = Packing(W, L)
    queues = {c: deque() for c in CLASSES}
    for c, p in pending:
        queues[c].append(p)
    remaining = list(items)
    placements = []
    area = 0
    before_last_pop = None
    while point is not None and remaining and (strip or area < W * L):
        x, y = point
        chosen = None
        for k, (iid, w, l) in enumerate(remaining):
            if pack.fits(x, y, w, l):
                chosen = (k, iid, w, l)
            elif rotation and pack.fits(x, y, l, w):
                chosen = (k, iid, l, w)
            if chosen:
                break
        if chosen:
            k, iid, w, l = chosen
            del remaining[k]
            pack.rects.append((x, y, w, l))
            placements.append((iid, x, y, w, l))
            area += w * l
            for c, p in pack.points_of_last():
                queues[c].append(p)
        if stats is not None:
            stats.trans()
        before_last_pop = {c: list(q) for c, q in queues.items()}
        point = None
        for c in strategy:
            if queues[c]:
                point = queues[c].popleft()
                break
    return placements, remaining, before_last_pop


def solve(containers, items, strategy, rotation, strip_height=None, stats=None):
    """containers: [(id, W, L)].  Returns {cid: placements}, {cid: exact value}."""
    remaining = list(items)
    sol, val = {}, {}
    for cid, W, L in containers:
        sol[cid], val[cid] = [], Fraction(0)
        if not remaining:
            continue
        strip = strip_height is not None
        height = strip_height if strip else L
        placements, remaining, _ = construct(W, height, remaining, strategy, rotation, strip, stats)
        sol[cid] = placements
        val[cid] = value(W, L, placements, strip)
    return sol, val


def value(W, L, placements, strip):
    area = sum(w * l for _, _, _, w, l in placements)
    if strip:
        top = max([y + l for _, _, y, _, l in placements] or [0])
        return Fraction(area, W * top) if top else Fraction(0)
    return Fraction(area, W * L)


def objective(values):
    """values: list in container order."""
    if len(values) == 1:
        return values[0]
    return sum(values[:-1]) + Fraction(7, 10) * values[-1]


# ----------------------------------------------------------------- invariants
def geometry_error(solution, containers, items, heights=None, rotation=None):
    """C01: first broken rule or None.
    solution: reported {cid: {iid: [x, y, w, l]}}; containers {cid: (W, L)};
    items {iid: (w, l)}; heights {cid: limit} overrides the length."""
    if set(solution) != set(containers):
        return "container entries %s, expected %s" % (sorted(solution), sorted(containers))
    seen = {}
    for cid, placed in solution.items():
        W, L = containers[cid]
        if heights:
            L = heights[cid]
        rects = []
        for iid, spec in placed.items():
            if iid not in items:
                return "placed id %r is no item of the problem" % (iid,)
            if iid in seen:
                return "item %r placed in %r and %r" % (iid, seen[iid], cid)
            seen[iid] = cid
            if len(spec) != 4 or not all(isinstance(v, int) for v in spec):
                return "item %r has placement %r" % (iid, spec)
            x, y, w, l = spec
            if sorted((w, l)) != sorted(items[iid]):
                return "item %r %r placed as %dx%d" % (iid, items[iid], w, l)
            if x < 0 or y < 0 or x + w > W or y + l > L:
                return "item %r at %r exceeds container %r %dx%d" % (iid, spec, cid, W, L)
            for (jid, (X, Y, w2, l2)) in rects:
                if x < X + w2 and X < x + w and y < Y + l2 and Y < y + l:
                    return "items %r %r and %r %r overlap" % (iid, spec, jid, [X, Y, w2, l2])
            rects.append((iid, (x, y, w, l)))
    return None

"""Bounded problem spaces shared by the packing checks."""
import itertools
from decimal import Decimal
from fractions import Fraction


class Index:
    """Behaves like an integer, but is none."""

    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v

    __int__ = __index__

    def __bool__(self):
        return bool(self.v)

    def __repr__(self):
        return "Index(%d)" % self.v

    def __hash__(self):
        return hash(self.v)


for _op in ("lt", "le", "gt", "ge", "eq", "ne", "add", "radd", "sub", "rsub", "mul", "rmul"):
    def _f(self, other, _g=getattr(int, "__%s__" % _op)):
        return _g(self.v, other.v if isinstance(other, Index) else other)
    setattr(Index, "__%s__" % _op, _f)

# equal to integers
ODD = [Index(2), Fraction(2), Decimal(2), complex(2)]

# every power of two and ten and its neighbours
SCALES = sorted({v for k in range(101) for v in (2**k - 1, 2**k, 2**k + 1) if v > 0} |
                {v for k in range(31) for v in (10**k - 1, 10**k, 10**k + 1) if v > 0})

DEFAULT = ("A", "B", "C", "D", "A_", "B_", "B__", "A__", "E", "F")
CLASSES = DEFAULT
SUFFIX = ("A__", "B__", "F", "E")
STRIP_SUFFIX = ("B__", "A__", "F", "E")
FREE6 = ("A", "B", "C", "D", "A_", "B_")
STRIP_ID = "strip-pack-container"


def multisets(alphabet, n):
    return itertools.combinations_with_replacement(alphabet, n)


def orders(items):
    """Distinct orders of a multiset given as sorted list, first the given one."""
    return sorted(set(itertools.permutations(items)), reverse=True)


def dims(maxw, maxl=None):
    return [(w, l) for w in range(1, maxw + 1) for l in range(1, (maxl or maxw) + 1)]


# strategy sets, simplest first
SINGLES = [()] + [(c,) for c in CLASSES]
PAIRS = [p for p in itertools.permutations(CLASSES, 2)]
TRIPLES = [p for p in itertools.permutations(CLASSES, 3)]
FULL = [DEFAULT, DEFAULT[::-1],
        ("A", "A_", "B_", "C", "B", "D", "A__", "B__", "F", "E"),
        ("B", "C", "D", "B_", "B__", "E", "F", "A__", "A_", "A"),
        ("C", "D", "A", "B_", "B", "A_", "A__", "B__", "F", "E"),
        ("B_", "F", "B__", "A_", "E", "A__", "D", "C", "B", "A"),
        ("A_", "E", "B", "F", "D", "A", "C", "B__", "A__", "B_"),
        ("E", "F", "A__", "B__", "A_", "B_", "C", "D", "A", "B")]
ROTATIONS = [DEFAULT[i:] + DEFAULT[:i] for i in range(1, 10)]
POOL720 = [p + SUFFIX for p in itertools.permutations(FREE6)]

STRATS = {
    "default": [DEFAULT],
    "few": FULL[:4],
    "some": FULL + ROTATIONS,
    "full+pairs": FULL + PAIRS,
    "wide": FULL + ROTATIONS + SINGLES + PAIRS,
    "all3": FULL + ROTATIONS + SINGLES + PAIRS + TRIPLES,
    "pool": POOL720,
}


def small_space(tier):
    """(W, L, items multiset, strategy set name): every multiset over the alphabets."""
    out = []

    def add(conts, alphabet, ns, strats):
        for n in ns:
            for ms in multisets(alphabet, n):
                for W, L in conts:
                    out.append((W, L, list(ms), strats))

    q = tier == "quick"
    add([(1, 1), (2, 2), (3, 2), (2, 3), (3, 3)], dims(3), (1, 2), "wide")
    add([(4, 3), (3, 4), (5, 5), (6, 5)], dims(3), (2,), "wide")
    add([(4, 4), (5, 4), (4, 5), (6, 4)], dims(3), (3,), "some" if q else "all3")
    add([(4, 4)], dims(4), (3,), "few" if q else "wide")
    add([(4, 4), (5, 4), (4, 5)], [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3)] if q else dims(3),
        (4,), "few" if q else "some")
    add([(4, 4), (6, 3), (3, 6)], [(1, 2), (2, 1), (3, 1), (2, 2)] if q else
        [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)], (5,), "few")
    add([(5, 5), (6, 5), (5, 6)], [(1, 3), (2, 2), (3, 1)], (5,), "few")
    add([(5, 5)], [(1, 3), (2, 1)] if q else [(1, 3), (2, 1), (2, 2)], (6,), "few")
    if not q:
        add([(6, 6), (7, 5), (5, 7)], [(1, 3), (2, 1), (3, 2)], (6,), "few")
        add([(8, 8)], [(2, 3), (1, 4), (3, 1)], (5, 6), "few")
        add([(6, 6)], [(1, 3), (3, 1)], (7,), "default")
    return out


# the order of the ids is neither alphabetical nor its reverse, some contain others or look
# special, items and containers share some: nothing may depend on it
ITEM_IDS = ("i10", "1", "z2", "i1", "", "c1", "%s", STRIP_ID, "{}", "w9")
CONT_IDS = ["c1", STRIP_ID, "1", "b3"] + ["k%d" % (7 * k % 1000) for k in range(4, 900)]


def ids(order):
    return {(ITEM_IDS[k] if k < 10 else "n%d" % (7 * k % 10007)): {"w": w, "l": l}
            for k, (w, l) in enumerate(order)}


def benchmark_sets(hp, names=("C1", "C2", "C3")):
    ds = hp.benchmarks.datasets.hopper_and_turton_2000
    for name in names:
        mod = getattr(ds, name)
        for s in ("items_a", "items_b", "items_c"):
            yield name, s, mod.containers, getattr(mod, s)

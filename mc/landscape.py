"""The abstract local search over every landscape: values are chosen lazily, one choice per
newly evaluated sequence, and every sequence of choices is explored."""
from itertools import combinations, product

from core import Violation


def weak_orderings(n):
    """All surjections of range(n) onto an initial segment of the integers."""
    for vals in product(range(n), repeat=n):
        m = max(vals)
        if len(set(vals)) == m + 1:
            yield vals


def toy(hp):
    from hyperpack.abstract import AbstractLocalSearch

    class Toy(AbstractLocalSearch):
        endless = None

        def __init__(self, n, value_of, direction, throttle_const=None, optimum=None):
            self.OPTIMIZATION = direction
            if throttle_const is not None:
                self.MAX_NEIGHBORS_THROTTLE = throttle_const
            self.init = tuple(range(n))
            self.value_of = value_of
            self.optimum = optimum
            self.trace = []
            self.inits = 0

        def get_optimum_objective_val(self):
            return super().get_optimum_objective_val() if self.optimum is None else self.optimum

        def get_init_solution(self):
            self.inits += 1
            self.cur = self.init
            return self.get_solution()

        def calculate_obj_value(self):
            return self.value_of(self.cur)

        def get_solution(self):
            return (self.cur, self.value_of(self.cur))

        def evaluate_node(self, sequence):
            self.cur = tuple(sequence)
            if len(self.trace) > (self.endless or 20000 + 10 * len(self.init) ** 2):
                raise Violation("the search does not end")
            self.trace.append((self.cur, self.value_of(self.cur)))

        def debug_local_search(self, **kwargs):
            pass

    return Toy


def exchange(node, seq):
    """The pair of exchanged positions or None."""
    if len(seq) != len(node):
        return None
    diff = [i for i in range(len(node)) if node[i] != seq[i]]
    if len(diff) != 2:
        return None
    i, j = diff
    return (i, j) if node[i] == seq[j] and node[j] == seq[i] else None


def replay(init, init_value, trace, better):
    """Splits the evaluated sequences into nodes.  Returns (error, nodes, tried per node)."""
    node, best = tuple(init), init_value
    nodes, tried = [(node, best)], [[]]
    for seq, v in trace:
        seq = tuple(seq)
        pair = exchange(node, seq)
        if pair is None:
            return ("evaluated %s which is no exchange of two positions of the current node %s"
                    % (seq, node), nodes, tried)
        tried[-1].append(pair)
        if better(v, best):
            node, best = seq, v
            nodes.append((node, best))
            tried.append([])
    return None, nodes, tried


def all_pairs(n):
    return set(combinations(range(n), 2))


class Choices:
    """Depth first enumeration of all choice sequences."""

    def __init__(self):
        self.prefix = []
        self.i = 0
        self.log = []

    def choose(self, n):
        c = self.prefix[self.i] if self.i < len(self.prefix) else 0
        self.i += 1
        self.log.append((c, n))
        return c

    def __iter__(self):
        while True:
            self.i, self.log = 0, []
            yield self
            while self.log and self.log[-1][0] + 1 >= self.log[-1][1]:
                self.log.pop()
            if not self.log:
                return
            self.prefix = [c for c, _ in self.log]
            self.prefix[-1] += 1

"""Records what a search evaluates, at the extension points of the abstract search.

`recorder(cls)` returns a subclass whose instances append one record per evaluated packing
(outermost of solve / evaluate_node / get_init_solution) to `self.log`; `hook(self, k)` is
called just before evaluation number k starts."""


class Rec:
    __slots__ = ("kind", "sequence", "value", "solution", "values", "strategy", "before",
                 "after", "now")

    def __repr__(self):
        return "%s %s -> %s %s" % (self.kind, self.sequence, self.value, self.solution)


def recorder(cls):
    class Recorded(cls):
        log = None
        hook = None
        _depth = 0

        def _record(self, kind, sequence, call):
            if self.log is None or self._depth:
                return call()
            r = Rec()
            r.kind, r.sequence = kind, None if sequence is None else list(sequence)
            r.strategy, r.before = self.potential_points_strategy, self.container_height
            if self.hook is not None:
                self.hook(len(self.log))
            self._depth += 1
            try:
                out = call()
            finally:
                self._depth -= 1
            r.value = self.calculate_obj_value()
            r.values = dict(self.obj_val_per_container)
            r.solution = copy(self.solution)
            r.after = self.container_height
            self.log.append(r)
            return out

        def solve(self, sequence=None, debug=False):
            return self._record("solve", sequence, lambda: super(Recorded, self).solve(
                sequence=sequence, debug=debug))

        def evaluate_node(self, sequence):
            return self._record("node", sequence,
                                lambda: super(Recorded, self).evaluate_node(sequence=sequence))

        def get_init_solution(self):
            return self._record("init", None, lambda: super(Recorded, self).get_init_solution())

    Recorded.__name__ = Recorded.__qualname__ = cls.__name__
    return Recorded


def copy(solution):
    return {c: {i: list(s) for i, s in v.items()} for c, v in solution.items()}


def top(solution):
    return max([s[1] + s[3] for v in solution.values() for s in v.values()] or [0])


def placed(solution):
    return sum(len(v) for v in solution.values())

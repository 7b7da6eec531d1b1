"""Stand-ins of the set generators (interface and documented semantics)."""
import numpy as np

from wfa_cardinality_estimation_evaluation_framework.simulations.set_generator_base import (
    SetGeneratorBase,
)

ORDER_ORIGINAL = "original"
ORDER_REVERSED = "reversed"
ORDER_RANDOM = "random"
CORRELATED_SETS_ALL = "all"
CORRELATED_SETS_ONE = "one"


class IndependentSetGenerator(SetGeneratorBase):
    def __init__(self, universe_size, set_sizes, random_state):
        self.universe_size = int(universe_size)
        self.set_sizes = list(set_sizes)
        self.random_state = random_state

    def __iter__(self):
        for s in self.set_sizes:
            yield self.random_state.choice(self.universe_size, s, replace=False)


class SequentiallyCorrelatedSetGenerator(SetGeneratorBase):
    def __init__(self, order, correlated_sets, shared_prop, set_sizes, random_state):
        order = getattr(order, "value", order)
        correlated_sets = getattr(correlated_sets, "value", correlated_sets)
        if order not in (ORDER_ORIGINAL, ORDER_REVERSED, ORDER_RANDOM):
            raise ValueError("Invalid order")
        if correlated_sets not in (CORRELATED_SETS_ALL, CORRELATED_SETS_ONE):
            raise ValueError("Invalid correlated_sets")
        if not 0 <= shared_prop <= 1:
            raise ValueError("Invalid shared_prop")
        self.order, self.correlated_sets = order, correlated_sets
        self.shared_prop, self.set_sizes = shared_prop, list(set_sizes)
        self.random_state = random_state

    def _original(self):
        previous, last, next_id, out = [], [], 0, []
        for size in self.set_sizes:
            pool = previous if self.correlated_sets == CORRELATED_SETS_ALL else last
            shared = min(len(pool), int(size * self.shared_prop))
            chosen = (
                list(self.random_state.choice(pool, shared, replace=False))
                if shared
                else []
            )
            fresh = list(range(next_id, next_id + size - shared))
            next_id += size - shared
            last = [int(x) for x in chosen] + fresh
            previous = previous + fresh
            out.append(np.array(last, dtype=int))
        return out

    def __iter__(self):
        sets = self._original()
        if self.order == ORDER_REVERSED:
            # sizes stay in the caller's order: build in reverse, return reversed
            sizes = self.set_sizes
            self.set_sizes = sizes[::-1]
            sets = self._original()[::-1]
            self.set_sizes = sizes
        return iter(sets)


class DisjointSetGenerator(SetGeneratorBase):
    def __init__(self, set_sizes):
        self.set_sizes = list(set_sizes)

    def __iter__(self):
        start = 0
        for s in self.set_sizes:
            yield np.arange(start, start + s)
            start += s

from collections import Counter

import numpy as np

from wfa_cardinality_estimation_evaluation_framework import RELEASE_LOG
from wfa_cardinality_estimation_evaluation_framework.estimators.estimator_noisers import (
    GeometricEstimateNoiser,
)


class ExponentialSameKeyAggregator:
    """Exact stand-in for the LiquidLegions sketch: id -> frequency."""

    def __init__(self, length, decay_rate, random_seed):
        self.length = length
        self.decay_rate = decay_rate
        self.random_seed = random_seed
        self.counts = Counter()
        # estimate_cardinality / simulators read this in the real package
        RELEASE_LOG.append(
            ("sketch", {"length": length, "decay": decay_rate, "seed": random_seed})
        )

    def add(self, x):
        self.counts[int(x)] += 1

    def add_ids(self, ids):
        for x in ids:
            self.add(x)

    def assert_compatible(self, other):
        if (self.length, self.decay_rate, self.random_seed) != (
            other.length,
            other.decay_rate,
            other.random_seed,
        ):
            raise AssertionError("incompatible sketches")


class StandardizedHistogramEstimator:
    """Estimates k+ reach of an (exact) sketch, then noises reach and histogram."""

    def __init__(
        self,
        max_freq=10,
        reach_noiser_class=GeometricEstimateNoiser,
        frequency_noiser_class=GeometricEstimateNoiser,
        reach_epsilon=np.inf,
        frequency_epsilon=np.inf,
        reach_delta=None,
        frequency_delta=None,
        reach_noiser_kwargs=None,
        frequency_noiser_kwargs=None,
    ):
        self.max_freq = max_freq
        self.reach_noiser_class = reach_noiser_class
        self.frequency_noiser_class = frequency_noiser_class
        self.reach_epsilon = reach_epsilon
        self.frequency_epsilon = frequency_epsilon
        self.reach_delta = reach_delta
        self.frequency_delta = frequency_delta
        self._reach_kwargs = reach_noiser_kwargs or {}
        self._freq_kwargs = frequency_noiser_kwargs or {}

    @classmethod
    def merge_two_sketches(cls, a, b):
        a.assert_compatible(b)
        out = ExponentialSameKeyAggregator(a.length, a.decay_rate, a.random_seed)
        out.counts.update(a.counts)
        out.counts.update(b.counts)
        return out

    @classmethod
    def merge_sketches(cls, sketches):
        out = sketches[0]
        for s in sketches[1:]:
            out = cls.merge_two_sketches(out, s)
        return out

    def _noiser(self, cls, eps, kwargs):
        if eps is None or np.isinf(eps):
            return lambda x: x
        return cls(eps, **kwargs)

    def estimate_cardinality(self, sketch):
        entry = {
            "max_freq": self.max_freq,
            "reach_epsilon": self.reach_epsilon,
            "frequency_epsilon": self.frequency_epsilon,
            "reach_delta": self.reach_delta,
            "frequency_delta": self.frequency_delta,
            "counts": dict(sketch.counts),
        }
        RELEASE_LOG.append(("estimate", entry))
        result = self._estimate(sketch)
        entry["result"] = list(result)
        return result

    def _estimate(self, sketch):
        hist = [0] * self.max_freq
        for f in sketch.counts.values():
            hist[min(f, self.max_freq) - 1] += 1
        reach = self._noiser(
            self.reach_noiser_class, self.reach_epsilon, self._reach_kwargs
        )(len(sketch.counts))
        if self.max_freq > 1:
            hist = self._noiser(
                self.frequency_noiser_class, self.frequency_epsilon, self._freq_kwargs
            )(np.array(hist))
        # As in the real estimator, the noised histogram is normalised as it is,
        # negative entries included, so the result needs cleaning downstream.
        total = float(np.sum(hist))
        if total == 0:
            return [float(reach)] + [0.0] * (self.max_freq - 1)
        tail = np.cumsum(np.array(hist, dtype=float)[::-1])[::-1]
        return list(reach * tail / total)

    def output_privacy_parameters(self):
        yield self.reach_noiser_class, self.reach_epsilon, self.reach_delta
        yield (
            self.frequency_noiser_class,
            self.frequency_epsilon,
            self.frequency_delta,
        )

import numpy as np

from wfa_cardinality_estimation_evaluation_framework import NOISE_CALLS, RELEASE_LOG
from wfa_cardinality_estimation_evaluation_framework.estimators.base import (
    EstimateNoiserBase,
)


class GeometricEstimateNoiser(EstimateNoiserBase):
    """Adds two-sided geometric noise of parameter epsilon to a count."""

    def __init__(self, epsilon, random_state=None):
        if not epsilon > 0:
            raise ValueError("epsilon must be positive, got {}".format(epsilon))
        self.epsilon = float(epsilon)
        self._p = 1 - np.exp(-self.epsilon)
        self._random_state = random_state or np.random.RandomState()
        self._log_index = None
        self._fresh = True

    def __call__(self, cardinality_estimate):
        # One noiser object = one mechanism.  It may be applied to disjoint
        # regions (parallel composition), so it is logged once per object.
        if self._fresh:
            RELEASE_LOG.append(("noise", self.epsilon))
            self._fresh = False
        shape = np.shape(cardinality_estimate)
        noise = self._random_state.geometric(
            self._p, size=shape or None
        ) - self._random_state.geometric(self._p, size=shape or None)
        if shape:
            out = np.asarray(cardinality_estimate) + noise
            for x, y in zip(np.ravel(cardinality_estimate), np.ravel(out)):
                NOISE_CALLS.append((self.epsilon, id(self), x, y))
            return out
        NOISE_CALLS.append(
            (self.epsilon, id(self), cardinality_estimate, cardinality_estimate + noise)
        )
        return cardinality_estimate + noise


class LaplaceEstimateNoiser(GeometricEstimateNoiser):
    pass

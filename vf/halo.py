"""Generated Halo instances and the log of what the noisers really did."""
import numpy as np

import wfa_cardinality_estimation_evaluation_framework as cardinality
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker
from wfa_planning_evaluation_framework.simulator.system_parameters import (
    LiquidLegionsParameters,
    SystemParameters,
)

from vf import gen


class World:
    pass


def world(d, max_pubs=4, hi=25, ids=None, sketch=(12, 1000), positive=False, fractions=None, min_pubs=1, lo=1, many_pubs=0, many=0):
    """A data set, its brute force model, and a halo instance over it."""
    w = World()
    p = gen.count(d, min_pubs, max_pubs, many_pubs) if many_pubs else d.size(min_pubs, max_pubs)
    ids = ids or d.pick([4, 12, 50])
    w.logs = [gen.events(d, lo=lo, hi=hi, ids=ids, many=many) for _ in range(p)]
    if positive:  # every event costs something, so that "no spend" buys nothing
        unit = max(s for e in w.logs for _, s in e) or 1.0
        w.logs = [[(i, s + unit / 16) for i, s in e] for e in w.logs]
    w.max_spends = [max(s for _, s in e) for e in w.logs]
    w.universe = d.pick([1000, 321])
    w.fractions = fractions or [d.pick([1.0, 0.5, 0.25, 0.8, 0.0]) for _ in range(p)]
    w.campaign = [f * m for f, m in zip(w.fractions, w.max_spends)]
    w.seed = d.seed()
    w.sketch = LiquidLegionsParameters(decay_rate=sketch[0], sketch_size=sketch[1], random_seed=d.int(1, 5))
    w.tracker = PrivacyTracker()
    w.params = SystemParameters(list(w.fractions), w.sketch, np.random.default_rng(w.seed))
    w.data_set = DataSet([PublisherData(list(e), f"p{i}") for i, e in enumerate(w.logs)], "ds", w.universe)
    w.halo = HaloSimulator(w.data_set, w.params, w.tracker)
    w.p = p
    return w


def spends_vector(d, w, zeros=True):
    out = []
    for e, c in zip(w.logs, w.campaign):
        k = d.raw(6)
        if k == 0:
            out.append(c)
        elif k == 1 and zeros:
            out.append(0.0)
        else:
            out.append(gen.query_spends(d, e, 1)[0])
    return out


def budget(d, eps=None):
    # dyadic, and split further only by dyadic proportions: exact sums
    return PrivacyBudget(eps if eps is not None else d.pick([1.0, 0.5, 2.0, 8.0, 0.125]), d.pick([0.0, 1 / 1024, 1 / 64]))


def split(d):
    return d.pick([0.5, 0.25, 0.75, 0.125, 0.9])


class Log:
    """What happened since the log was reset."""

    def __init__(self):
        cardinality.reset_log()

    @property
    def estimates(self):
        return [e for k, e in cardinality.RELEASE_LOG if k == "estimate"]

    @property
    def noise(self):
        """The epsilon of every noise mechanism that was applied to data."""
        return [e for k, e in cardinality.RELEASE_LOG if k == "noise"]

    @property
    def calls(self):
        return list(cardinality.NOISE_CALLS)

    @property
    def sketches(self):
        return [e for k, e in cardinality.RELEASE_LOG if k == "sketch"]


def ledger(w):
    c = w.tracker.privacy_consumption
    return c.epsilon, c.delta, len(w.tracker.mechanisms)

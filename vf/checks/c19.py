"""C19: test points cover the spend range the way their strategy says, and depend only on data set and seed."""
import itertools
import math

import numpy as np

from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.driver.grid_test_point_generator import GridTestPointGenerator
from wfa_planning_evaluation_framework.driver.latin_hypercube_random_test_point_generator import (
    LatinHypercubeRandomTestPointGenerator,
)
from wfa_planning_evaluation_framework.driver.uniformly_random_test_point_generator import (
    UniformlyRandomTestPointGenerator,
)
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget

from vf import compat, gen
from vf.runner import Check, Sub

compat.fast_lhs()

CLASSES = {
    "grid": GridTestPointGenerator,
    "latin_hypercube": LatinHypercubeRandomTestPointGenerator,
    "uniformly_random": UniformlyRandomTestPointGenerator,
}


def _data(d, max_pubs):
    p = gen.count(d, 1, max_pubs, 12, even=True) if max_pubs > 4 else d.int(1, max_pubs)
    logs = [gen.events(d, hi=8) for _ in range(p)]
    return DataSet([PublisherData(list(e), f"p{i}") for i, e in enumerate(logs)], "ds"), [max(s for _, s in e) for e in logs]


def _points(d, which, ds, seed, kwargs, via):
    rng = np.random.default_rng(seed)
    if via:
        ep = ExperimentParameters(PrivacyBudget(1.0, 0.0), 1, 3, which, dict(kwargs))
        return list(ep.generate_test_points(ds, rng))
    return list(CLASSES[which](ds, rng, **kwargs).test_points())


def _shape(d, pts, tops):
    for q in pts:
        d.eq(len(q), len(tops), "length of a test point")
        for x, top in zip(q, tops):
            d.check(0 <= x <= top, f"spend {x} outside of [0, {top}]")


def _stable(d, which, ds, seed, kwargs, pts, tops):
    """The same seed gives the same points whatever ran before; another seed gives other points."""
    np.random.seed(d.seed())
    np.random.rand(d.int(0, 9))
    again = _points(d, which, ds, seed, kwargs, d.bool())
    d.eq([list(map(float, q)) for q in again], [list(map(float, q)) for q in pts], "points with the same seed")
    if which != "grid" and max(tops) > 0:
        other = _points(d, which, ds, seed + 1, kwargs, False)
        d.check([list(q) for q in other] != [list(q) for q in pts], "another seed gives the same points")


def grid(d):
    ds, tops = _data(d, 4)
    g = d.int(1, 5)
    if d.bool(0.1):
        g = d.int(6, [300, 40, 12, 7][len(tops) - 1])
    via = d.bool()
    d.show({"max_spends": tops, "grid_size": g})
    pts = _points(d, "grid", ds, d.seed(), {"grid_size": g}, via)
    d.eq(len(pts), g ** len(tops), "number of grid points")
    _shape(d, pts, tops)
    want = sorted(itertools.product(*[[t * i / (g + 1) for i in range(1, g + 1)] for t in tops]))
    # coordinates may differ by rounding, so compare after snapping to the grid index
    snap = lambda q: tuple(round(x * (g + 1) / t) if t > 0 else 0 for x, t in zip(q, tops))
    d.eq(sorted(map(snap, pts)), sorted(map(snap, want)), "grid cells")
    for q in pts:
        for x, t, i in zip(q, tops, snap(q)):
            d.close(x, t * i / (g + 1), "grid coordinate", rel=1e-9, abs_=0)
    _stable(d, "grid", ds, d.seed(), {"grid_size": g}, pts, tops)
    d.nontrivial(len(tops) > 1 and g > 1)


def _kwargs(d, p, hi):
    k = {}
    if d.bool(0.7):
        k["npoints"] = d.pick([100, d.int(1, 99), d.int(101, hi), 1])
    if d.bool(0.6):
        k["npublishers"] = d.pick([p, 1])
        if d.bool(0.6):
            k["minimum_points_per_publisher"] = d.pick([1, d.int(1, hi // max(1, k["npublishers"])), 100])
    return k


def _count(k):
    return max(k.get("npoints", 100), k.get("npublishers", 1) * k.get("minimum_points_per_publisher", 100), 100)


def _ks(values):
    v, n = sorted(values), len(values)
    return math.sqrt(n) * max(max((i + 1) / n - x, x - i / n) for i, x in enumerate(v))


def _fisher(a, b):
    r = min(max(float(np.corrcoef(a, b)[0, 1]), -1 + 1e-15), 1 - 1e-15)
    return math.atanh(r) * math.sqrt(len(a) - 3)


def uniform(d):
    ds, tops = _data(d, 6)
    p = len(tops)
    k = _kwargs(d, p, 600)
    seed = d.seed()
    d.show({"max_spends": tops, "kwargs": k, "seed": seed})
    pts = _points(d, "uniformly_random", ds, seed, k, d.bool())
    d.eq(len(pts), _count(k), "number of points")
    _shape(d, pts, tops)
    cols = [[q[i] / tops[i] for q in pts] for i in range(p) if tops[i] > 0]
    for c in cols:
        d.check(_ks(c) < 3.2, f"spends are not uniform: KS statistic {_ks(c):.2f}")
    for a, b in itertools.combinations(cols, 2):
        r = np.corrcoef(a, b)[0, 1] * math.sqrt(len(a))
        d.check(abs(r) < 6.5, f"spends of two publishers are correlated (z = {r:.1f})")
    # points are independent of each other
    for c in cols:
        for name, a, b in (("successive", c[:-1], c[1:]), ("paired", c[0::2][: len(c) // 2], c[1::2]), ("half-way", c[: len(c) // 2], c[len(c) - len(c) // 2 :])):
            z = _fisher(a, b)
            d.check(abs(z) < 7, f"spends of {name} points are correlated (z = {z:.1f})")
        d.eq(len(set(c)), len(c), "distinct spends")
    _stable(d, "uniformly_random", ds, seed, k, pts, tops)
    d.nontrivial(p > 1)


def latin(d):
    ds, tops = _data(d, 4)
    p = len(tops)
    if d.bool(0.01):
        k = {"npoints": 2500}  # beyond the documented maximum
    else:
        k = _kwargs(d, p, 600)
    seed = d.seed()
    d.show({"max_spends": tops, "kwargs": k, "seed": seed})
    pts = _points(d, "latin_hypercube", ds, seed, k, d.bool())
    n = min(_count(k), 2000)
    d.eq(len(pts), n, "number of points")
    _shape(d, pts, tops)
    cols = [[q[i] / tops[i] for q in pts] for i in range(p) if tops[i] > 0]
    for c in cols:
        for i, x in enumerate(sorted(c)):
            d.check(i / n - 1e-9 <= x <= (i + 1) / n + 1e-9, f"stratum {i} of {n} holds {x}")
    for a, b in itertools.combinations(cols, 2):
        r = np.corrcoef(a, b)[0, 1] * math.sqrt(n)
        d.check(abs(r) < 6.5, f"spends of two publishers are correlated (z = {r:.1f})")
    _stable(d, "latin_hypercube", ds, seed, k, pts, tops)
    if d.bool(0.1) and tops[0] > 0:
        # another generator gives another hypercube, not the same one in another order
        kinds = {tuple(sorted(q[0] for q in _points(d, "latin_hypercube", ds, seed + j, k, False))) for j in range(p + 2)}
        d.eq(len(kinds), p + 2, "different sets of spends of the first publisher for different generators")
    d.nontrivial(p > 1)


def refused(d):
    ds, _ = _data(d, 2)
    name = d.pick(["", "Grid", "grid ", "uniform", "lhs", "none"])
    ep = ExperimentParameters(PrivacyBudget(1.0, 0.0), 1, 3, name, {})
    d.show({"strategy": name})
    d.raises(ValueError, lambda: list(ep.generate_test_points(ds, np.random.default_rng(1))), "unknown strategy")
    d.nontrivial()


def cap(d):
    """More points than the documented maximum of a latin hypercube."""
    k = {"npoints": d.pick([2001, 3000])} if d.bool() else {"npublishers": 30, "minimum_points_per_publisher": 100}
    ds = DataSet([PublisherData([(1, 2.0), (2, 4.0)], "a")], "ds")
    d.show(k)
    pts = _points(d, "latin_hypercube", ds, d.seed(), k, d.bool())
    d.eq(len(pts), 2000, "number of points")
    _shape(d, pts, [4.0])
    d.nontrivial()


CHECK = Check(
    "C19",
    [Sub("grid", grid, 1500, 20000), Sub("uniform", uniform, 800, 10000), Sub("latin", latin, 600, 8000), Sub("refused", refused, 50, 200), Sub("cap", cap, 16, 200)],
    rule="data sets of 1-6 publishers with arbitrary maximum spends, number of points below, at and above the minimum and maximum, with and without a publisher count, through the generator classes and through the experiment parameters; non-trivial: several publishers",
    assumptions=["uniformity and independence are tested with statistics whose false alarm probability is below 1e-7 per case; the seed is fixed"],
)

"""Generated experiments: data designs on disk, trial descriptors, and cheap models that log what they are given."""
import math
import os

import numpy as np

from vf import compat

compat.patch_pandas()
compat.silence()
compat.fast_lhs()

import wfa_cardinality_estimation_evaluation_framework as cardinality  # noqa: E402,F401
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign  # noqa: E402
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet  # noqa: E402
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData  # noqa: E402
from wfa_planning_evaluation_framework.driver import modeling_strategy_descriptor as msd  # noqa: E402
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters  # noqa: E402
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor  # noqa: E402
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve  # noqa: E402
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint  # noqa: E402
from wfa_planning_evaluation_framework.models.reach_surface import ReachSurface  # noqa: E402
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget  # noqa: E402
from wfa_planning_evaluation_framework.simulator.system_parameters import (  # noqa: E402
    LiquidLegionsParameters,
    SystemParameters,
)

from vf import gen  # noqa: E402

FITTED = []  # models in the order in which they were fitted
ON_FIT = []  # callables called at every fit


class ModelFailure(Exception):
    pass


def kp(point):
    return [point.reach(k) for k in range(1, point.max_frequency + 1)]


class Curve(ReachCurve):
    """k+ reach proportional to spend, up to twice the training spend; scale is a parameter."""

    def __init__(self, data, scale=1.0, fail="", burn=0):
        self.given = list(data)
        self.scale, self.fail, self.burn = scale, fail, burn
        self._data = list(data)
        self.fitted = 0

    def _fit(self):
        self.fitted += 1
        FITTED.append(self)
        for f in ON_FIT:
            f(self)
        np.random.rand(self.burn)
        if self.fail:
            raise ModelFailure(self.fail)

    def _value(self, x, ref, max_frequency):
        k = kp(self.given[0])
        f = 1 - math.exp(-2.0 * x / ref) if ref > 0 else 0.0
        return [self.scale * f * (k[i] if i < len(k) else 0) for i in range(max_frequency)]

    def by_spend(self, spends, max_frequency=1):
        p = self.given[0]
        return ReachPoint([0], self._value(spends[0], p.spends[0], max_frequency), [spends[0]])

    def by_impressions(self, impressions, max_frequency=1):
        p = self.given[0]
        return ReachPoint(list(impressions), self._value(impressions[0], p.impressions[0], max_frequency))


class Surface(ReachSurface):
    """Sum of the curves, damped by the total reach of the training points."""

    def __init__(self, reach_curves, reach_points, damp=0.5, fail=""):
        self.curves, self.points = list(reach_curves), list(reach_points)
        self._data = list(reach_points)
        self.damp, self.fail = damp, fail
        self.fitted = 0

    def _fit(self):
        self.fitted += 1
        FITTED.append(self)
        for f in ON_FIT:
            f(self)
        if self.fail:
            raise ModelFailure(self.fail)

    def by_spend(self, spends, max_frequency=1):
        total = [0.0] * max_frequency
        for c, s in zip(self.curves, spends):
            for i, v in enumerate(kp(c.by_spend([s], max_frequency))):
                total[i] += v
        bound = sum(kp(p)[0] for p in self.points)
        out = [t / (1 + self.damp * t / bound) if bound > 0 else 0.0 for t in total]
        return ReachPoint([0] * len(self.curves), out, list(spends))


def register():
    """Makes the models known to the descriptors under the names vf_curve and vf_surface."""
    msd.SINGLE_PUB_MODELS["vf_curve"] = Curve
    msd.MULTI_PUB_MODELS["vf_surface"] = Surface


register()


class World:
    """A data design in a directory, its event logs, and trial descriptors."""


def world(d, tmp, max_sets=3, max_pubs=4, single=None, max_desc=3, failing=True):
    w = World()
    w.single = d.bool(0.3) if single is None else single
    w.logs = {}
    w.universe = {}
    os.makedirs(tmp, exist_ok=True)
    design = DataDesign(os.path.join(tmp, "design"))
    fixed_p = None if (w.single or d.bool(0.5)) else d.int(1, max_pubs)
    for i in range(d.size(1, max_sets)):
        p = 1 if w.single else (fixed_p or d.int(1, max_pubs))
        name = d.pick(["ds", "data set", "a=1,b=(2)", "P=1.5"]) + str(i)
        if d.bool(0.15):
            name = ["Abc", "aBc", "ABC"][i % 3] + "x" * (i // 3)
        ids = d.pick([5, 20])
        logs = [[(u, s + 0.25) for u, s in gen.events(d, lo=1, hi=14, ids=ids, style=d.pick(["grid", "distinct", "cents"]))] for _ in range(p)]
        w.logs[name] = logs
        design.add(DataSet([PublisherData(list(e), f"p{k}") for k, e in enumerate(logs)], name))
    w.dir = os.path.join(tmp, "design")
    w.fixed_p = 1 if w.single else fixed_p
    w.seed = d.int(0, 10 ** 6) if d.bool(0.85) else d.pick([0, 1, 2 ** 32 - 1])
    w.specs = []
    for i in range(d.size(1, max_desc) if d.bool(0.98) else d.int(8, 14)):
        w.specs.append(_spec(d, w, failing))
    w.shared = d.bool(0.5)
    w.gen_seed = d.int(0, 10 ** 6)
    for name in w.logs:
        ds = design.by_name(name)
        for td in descriptors(w):
            if len(str(td.update_from_dataset(ds)).encode()) > 245:
                d.reject()  # longer than a file name can be: see DESIGN.md, not claimed
    return w


def _spec(d, w, failing):
    k = {}
    k["strategy"] = "single_publisher" if w.single and d.bool() else "m3strategy"
    k["strategy_kwargs"] = {"use_ground_truth_for_reach_curves": True} if k["strategy"] == "m3strategy" and not w.single and d.bool(0.15) else {}
    k["curve_kwargs"] = {}
    if d.bool(0.4):
        k["curve_kwargs"]["scale"] = d.pick([0.5, 1.5])
    if d.bool(0.2):
        k["curve_kwargs"]["burn"] = d.int(1, 5)
    if failing and d.bool(0.15):
        k["curve_kwargs"]["fail"] = d.pick(["broken", "no, really"])
    k["surface_kwargs"] = {"damp": d.pick([0.25, 1.0])} if d.bool(0.4) else {}
    if failing and d.bool(0.1):
        k["surface_kwargs"]["fail"] = "surface"
    # fractions must match the number of publishers: a list if all data sets agree, a function otherwise
    k["fraction"] = d.pick([0.5, 1.0, 0.25, 0.75])
    k["as_function"] = w.fixed_p is None or d.bool(0.3)
    k["sketch"] = d.pick([(12, 1000), (10, 500)])
    k["eps"] = d.pick([1.0, 4.0, 1000.0])
    k["delta"] = d.pick([0.0, 1e-7])
    k["replica"] = d.int(1, 3)
    k["maxf"] = d.pick([1, 3, 6, 2, 14])
    k["points"] = d.pick(
        [
            ("grid", {"grid_size": 2}),
            ("grid", {"grid_size": 1}),
            ("latin_hypercube", {"npoints": 100}),
            ("uniformly_random", {"npoints": 120}),
            ("uniformly_random", {"npublishers": 1, "minimum_points_per_publisher": 60}),
        ]
    )
    return k


def fractions(k, p):
    return [k["fraction"] / (1 + i % 2) for i in range(p)]


class FractionsFor:
    def __init__(self, k):
        self.k = k

    def __call__(self, dataset):
        return fractions(self.k, dataset.publisher_count)


def descriptors(w, order=None):
    """Fresh descriptors (with fresh random generators)."""
    g = np.random.default_rng(w.gen_seed)
    out = []
    for i in order if order is not None else range(len(w.specs)):
        k = w.specs[i]
        # trials of the same name have the same generator
        plain = [{**x, "as_function": 0} for x in w.specs]
        gg = g if w.shared else np.random.default_rng(w.gen_seed + plain.index(plain[i]))
        ll = LiquidLegionsParameters(decay_rate=k["sketch"][0], sketch_size=k["sketch"][1])
        if k["as_function"]:
            sp = SystemParameters([0], ll, gg, FractionsFor(k))
        else:
            sp = SystemParameters(fractions(k, w.fixed_p), ll, gg)
        out.append(
            TrialDescriptor(
                msd.ModelingStrategyDescriptor(
                    k["strategy"], dict(k["strategy_kwargs"]), "vf_curve", dict(k["curve_kwargs"]), "vf_surface", dict(k["surface_kwargs"])
                ),
                sp,
                ExperimentParameters(PrivacyBudget(k["eps"], k["delta"]), k["replica"], k["maxf"], k["points"][0], dict(k["points"][1])),
            )
        )
    return out


def describe(w):
    return {"logs": w.logs, "specs": w.specs, "seed": w.seed, "analysis": "single" if w.single else "", "shared_generator": w.shared}


# -- results -----------------------------------------------------------------
def _null(v):
    if v is None:
        return True
    if isinstance(v, float) and v != v:
        return True
    return isinstance(v, str) and v in ("", "NaN", "nan")


def norm(v):
    """Values as they come out of memory or of a CSV file."""
    if hasattr(v, "item"):
        v = v.item()
    if _null(v):
        return None
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float)):
        return float(v)
    return str(v)


def row(frame, i=0):
    r = frame.iloc[i]
    return {c: norm(r[c]) for c in frame.columns}


def same_row(d, got, want, what, skip=()):
    d.eq(sorted(got), sorted(want), f"columns of {what}")
    for c in want:
        if c in skip:
            continue
        g, x = got[c], want[c]
        if c == "model_exception" and isinstance(g, str) and isinstance(x, str):
            g, x = g.strip().splitlines()[-1:], x.strip().splitlines()[-1:]
        if isinstance(g, float) and isinstance(x, float):
            d.close(g, x, f"{c} of {what}", rel=1e-9, abs_=1e-12)
        else:
            d.eq(g, x, f"{c} of {what}")

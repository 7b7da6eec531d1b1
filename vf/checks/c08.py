"""C08: quantile inversion of reach curves."""
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

from vf import gen
from vf.runner import Check, Sub


class StepCurve(ReachCurve):
    """A monotone curve given by its jumps; spend = impressions * cpi."""

    def __init__(self, jumps, max_reach, cpi):
        super().__init__([ReachPoint([1], [1], [1.0])], max_reach)
        self.jumps, self.cpi, self.calls = jumps, cpi, 0

    def at(self, x):
        return sum(h for pos, h in self.jumps if x >= pos)

    def by_impressions(self, impressions, max_frequency=1):
        self.calls += 1
        return ReachPoint(impressions, [self.at(impressions[0])] * max_frequency)

    def by_spend(self, spends, max_frequency=1):
        return self.by_impressions([spends[0] / self.cpi], max_frequency)


def _law(d, fn, x, target, what):
    """x is the largest integer whose reach does not exceed the target."""
    d.check(x == int(x) and x >= 0, f"{what}: {x!r} is not a non-negative integer")
    lo, hi = fn(x), fn(x + 1)
    d.check(
        lo <= target < hi,
        f"{what}: reach({x})={lo}, reach({x + 1})={hi}, target {target}",
    )


def steps(d):
    top = d.pick([3, 20, 1000, 2 ** 40, 2 ** 59])
    n = d.size(1, 8)
    jumps = [(d.int(1, top), d.int(1, 5) if d.bool(0.8) else d.float(0.01, 3)) for _ in range(n)]
    total = sum(h for _, h in jumps)
    max_reach = total if d.bool(0.7) else total * d.pick([0.5, 1.5, 4])
    c = StepCurve(jumps, max_reach, d.pick([1.0, 0.25, 2.0]))
    q = d.pick([0.5, 0.9, 0.1, 0.999, 1e-9, 0.25, 1 - 1e-12]) if d.bool() else d.float(0.001, 0.999)
    d.show({"jumps": jumps, "max_reach": max_reach, "quantile": q})
    target = max_reach * q
    if c.at(2 ** 61) <= target:
        d.raises(OverflowError, lambda: c.impressions_at_reach_quantile(q), "unreachable quantile")
        d.label("unreachable")
        return
    x = c.impressions_at_reach_quantile(q)
    _law(d, lambda v: c.by_impressions([v]).reach(), x, target, "impressions_at_reach_quantile")
    d.check(c.calls < 400, f"{c.calls} evaluations of the curve")
    if c.at(2 ** 60 / c.cpi) > target:
        s = c.spend_at_reach_quantile(q)
        _law(d, lambda v: c.by_spend([v]).reach(), s, target, "spend_at_reach_quantile")
    d.nontrivial(len(jumps) > 1 and x > 0)


def domain(d):
    c = StepCurve([(3, 5)], 5, 1.0)
    q = d.pick([0, 1, 0.0, 1.0, -0.5, 1.5, float("nan"), float("inf"), -1e-12, 1 + 1e-12])
    d.show(q)
    d.raises(ValueError, lambda: c.impressions_at_reach_quantile(q), f"impressions quantile {q}")
    d.raises(ValueError, lambda: c.spend_at_reach_quantile(q), f"spend quantile {q}")
    d.nontrivial()


def goerg(d):
    reach = d.int(1, 5000)
    imps = reach + d.int(1, 20000)
    cost = d.log_float(0.01, 1e5)
    m = GoergModel([ReachPoint([imps], [reach], [cost])])
    q1, q2 = sorted([d.float(0.01, 0.99), d.float(0.01, 0.99)])
    d.show({"impressions": imps, "reach": reach, "cost": cost, "q": (q1, q2)})
    xs = [m.impressions_at_reach_quantile(q) for q in (q1, q2)]
    for q, x in zip((q1, q2), xs):
        _law(d, lambda v: m.by_impressions([v]).reach(), x, m.max_reach * q, "Goerg impressions quantile")
        s = m.spend_at_reach_quantile(q)
        _law(d, lambda v: m.by_spend([v]).reach(), s, m.max_reach * q, "Goerg spend quantile")
    d.check(xs[0] <= xs[1], "a larger quantile needs fewer impressions")
    d.nontrivial(xs[1] > 1)


def truth(d):
    evs = [(i, s + 1 / 64) for i, s in gen.events(d, lo=2, hi=40, ids=20, style=d.pick(["distinct", "float"]))]
    ds = DataSet([PublisherData(evs, "a"), PublisherData([(1, 1.0)], "b")], "ds")
    m = GroundTruthReachCurveModel(ds, 0)
    q = d.float(0.02, 0.98)
    d.show({"events": evs, "q": q})
    reached = len({i for i, _ in evs})
    d.eq(m.max_reach, reached, "max_reach of the ground truth curve")
    x = m.impressions_at_reach_quantile(q)
    order = [i for i, _ in sorted(evs, key=lambda e: e[1])]
    if len({s for _, s in evs}) == len(evs):
        d.check(
            len(set(order[:x])) <= q * reached < len(set(order[: x + 1])),
            f"quantile {q} of {reached}: {x} impressions",
        )
    s = m.spend_at_reach_quantile(q)
    at = lambda v: len({i for i, c in evs if c <= v})
    d.check(at(s) <= q * reached < at(s + 1), f"quantile {q} of {reached}: spend {s}")
    d.nontrivial(reached > 2)


CHECK = Check(
    "C08",
    [
        Sub("steps", steps, 18000, 144000),
        Sub("domain", domain, 200, 500),
        Sub("goerg", goerg, 4500, 36000),
        Sub("truth", truth, 4500, 36000),
    ],
    rule="monotone step curves (1-8 jumps anywhere in 1..2^59), Goerg models and ground truth curves, quantiles near 0, near 1 and exactly on a plateau, checked against the definition (largest integer whose reach does not exceed the target); non-trivial: several jumps and a positive answer",
)

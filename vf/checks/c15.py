"""C15: generalized mixture surface."""
import numpy as np

from wfa_planning_evaluation_framework.models.generalized_mixture_reach_surface import (
    GeneralizedMixtureReachSurface as Surface,
)
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

from vf import surfaces as S
from vf.runner import Check, Sub


def mixture(a, r, N):
    """a: p x c, rows on the simplex."""
    p, c = len(a), len(a[0])
    out = 0.0
    for j in range(c):
        w = 1.0
        for i in range(p):
            w *= 1 - a[i][j] * r[i] / N
        out += 1 - w
    return N * out


def simplex(d, c):
    v = [d.float(0.01, 1) for _ in range(c)]
    s = sum(v)
    return [x / s for x in v]


def _world(d, max_c=4):
    p = d.pick([2, 3, 4]) if d.bool(0.96) else d.int(5, 10)
    c = d.int(1, max_c) if d.bool(0.98) else d.int(5, 8)
    curves, spec = S.curves(d, p, d.pick([50, 1000, 20000]))
    N = 2 * max(s[3] for s in spec)
    a = [simplex(d, c) for _ in range(p)]
    return p, c, curves, spec, N, a


def fit(d):
    p, c, curves, spec, N, a = _world(d)
    noise = d.pick([0.0, 0.02, 0.2])
    pts = []
    for _ in range(d.int(1, 6)):
        xs = S.impressions(d, spec, active=2)
        pts.append(ReachPoint(xs, [mixture(a, S.reaches(spec, xs), N) * (1 + noise * (2 * d.unit() - 1))]))
    d.show({"curves (impressions, reach, cost, max reach)": spec, "clusters": c, "points": [(list(q.impressions), q.reach()) for q in pts]})
    surface = Surface(curves, pts, num_clusters=c)
    surface._fit()
    if c == 1:
        # one cluster: the surface is known without any training
        for _ in range(2):
            xs = S.impressions(d, spec)
            want = mixture([[1.0]] * p, S.reaches(spec, xs), N)
            d.close(float(surface.by_impressions(xs).reach()), want, f"one cluster at {xs}", rel=1e-3, abs_=1e-3)
    for _ in range(4):
        S.laws(d, surface, spec, S.impressions(d, spec), "generalized mixture", slack=1e-3)
    S.same_by_spend(d, surface, spec, S.impressions(d, spec), "generalized mixture")
    fitted = np.array(surface.a).reshape(p, c)
    d.check(fitted.min() > -1e-4, f"negative share: {fitted.tolist()}")
    for row in fitted:
        d.close(row.sum(), 1, "shares of a publisher over the clusters", abs_=1e-3)
    d.nontrivial(c > 1)
    d.label(f"p={p} c={c}")


def formula(d):
    """Predictions for given shares follow the documented formula."""
    p, c, curves, spec, N, a = _world(d, 5)
    surface = Surface(curves, [ReachPoint([1] * p, [1])], num_clusters=c)
    surface.a = np.array(a).flatten()
    d.show({"curves": spec, "shares": a})
    for _ in range(4):
        xs = S.impressions(d, spec)
        d.close(
            float(surface.by_impressions(xs).reach()),
            mixture(a, S.reaches(spec, xs), N),
            f"union at {xs}",
            rel=1e-9,
            abs_=1e-6,
        )
    S.laws(d, surface, spec, S.impressions(d, spec), "given shares", slack=1e-9)
    S.same_by_spend(d, surface, spec, S.impressions(d, spec), "given shares")
    d.nontrivial(c > 1)


def recovery(d):
    """Training points that come from shares of clusters are roughly reproduced (the fit is a heuristic)."""
    errors = []
    for _ in range(6):
        p, c, curves, spec, N, a = _world(d)
        pts = []
        for _ in range(d.int(2, 8)):
            xs = S.impressions(d, spec, active=2)
            pts.append(ReachPoint(xs, [mixture(a, S.reaches(spec, xs), N)]))
        d.show({"curves": spec, "clusters": c, "points": [(list(q.impressions), q.reach()) for q in pts]})
        surface = Surface(curves, pts, num_clusters=c)
        surface._fit()
        e = [abs(float(surface.by_impressions(list(q.impressions)).reach()) / q.reach() - 1) for q in pts]
        d.check(max(e) <= 0.35, lambda: f"training points are off by {e}")
        errors.append(sum(e) / len(e))
        if errors[-1] <= 0.05:
            break
    else:
        d.check(False, lambda: f"none of {len(errors)} fits reproduces its training points: mean errors {errors}")
    d.nontrivial(c > 1)


def deterministic(d):
    p, c, curves, spec, N, a = _world(d)
    pts = []
    for _ in range(p + 1):
        xs = S.impressions(d, spec, active=2)
        pts.append(ReachPoint(xs, [mixture(a, S.reaches(spec, xs), N)]))
    xs = S.impressions(d, spec, active=2)
    out = []
    for seed in (1, 99):
        np.random.seed(seed)
        s = Surface(curves, pts, num_clusters=c)
        s._fit()
        out.append(float(s.by_impressions(xs).reach()))
    d.show({"curves": spec, "reach": out})
    d.eq(out[1], out[0], "prediction of the same fit with other global random state")
    d.nontrivial(c > 1)


def refusals(d):
    curves, spec = S.curves(d, 2, 100)
    d.show(spec)
    a, b = ReachPoint([5, 5], [3]), ReachPoint([5, 5, 5], [3])
    d.raises((ValueError, IndexError), lambda: Surface(curves, [], num_clusters=2), "no training point")
    d.raises(ValueError, lambda: Surface(curves, [a, b], num_clusters=2), "points of different dimension")
    d.nontrivial()


CHECK = Check(
    "C15",
    [
        Sub("fit", fit, 800, 8000),
        Sub("formula", formula, 2400, 24000),
        Sub("recovery", recovery, 240, 3000),
        Sub("deterministic", deterministic, 160, 1500),
        Sub("refusals", refusals, 40, 200),
    ],
    rule="2-4 (4%: up to 10) Goerg curves, 1-5 (2%: up to 8) clusters, training points from random shares, exact or with noise; union laws, shares on the simplex, the documented formula for given shares, determinism; non-trivial: more than one cluster",
    assumptions=["tolerance of 1e-3 of the audience for the QP solver"],
)

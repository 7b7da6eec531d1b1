"""C14: restricted pairwise union surface (overlap of rank one)."""
import numpy as np

from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.restricted_pairwise_union_reach_surface import (
    RestrictedPairwiseUnionReachSurface as Surface,
)

from vf import surfaces as S
from vf.runner import Check, Sub


def union(lbd, r, m):
    p = len(r)
    return sum(r) - sum(
        lbd[i] * lbd[j] * r[i] * r[j] / (2 * max(m[i], m[j])) for i in range(p) for j in range(i)
    )


def feasible(lbd, tol=1e-9):
    s = sum(lbd)
    return all(x >= -tol and x * (s - x) <= 1 + tol for x in lbd)


def feasible_lbd(d, p):
    lbd = np.array([d.float(0, 1) if d.bool(0.9) else 0.0 for _ in range(p)])
    while not feasible(lbd):
        lbd = lbd * 0.8
    return lbd


def _bound_search(surface, restarts=4):
    """Fewer restarts than the default 30 to 1000, to bound the time of one fit."""
    define = getattr(surface, "_define_criteria", None)
    if define is not None:
        surface._define_criteria = lambda *a, **k: define(
            min_num_init=restarts, num_near_the_wall=min(3, restarts), max_num_init=restarts + 2, max_num_rounds=60
        )


def fit(d):
    p = d.pick([2, 3, 4])
    curves, spec = S.curves(d, p, d.pick([50, 500, 5000]))
    m = [s[3] for s in spec]
    truth = feasible_lbd(d, p)
    noise = d.pick([0.0, 0.02, 0.1, 0.3])
    pts = []
    for _ in range(d.int(max(1, p - 1), p + 3)):
        xs = S.impressions(d, spec, active=2)
        u = union(truth, S.reaches(spec, xs), m) * (1 + noise * (2 * d.unit() - 1))
        pts.append(ReachPoint(xs, [u]))
    if d.bool(0.3):  # a single publisher point carries no information on the overlap
        xs = [0] * p
        xs[0] = 10
        pts.append(ReachPoint(xs, [S.reaches(spec, xs)[0] * 0.9]))
    d.show({"curves (impressions, reach, cost, max reach)": spec, "points": [(list(q.impressions), q.reach()) for q in pts]})
    surface = Surface(curves, pts)
    _bound_search(surface)
    surface._fit()
    for _ in range(4):
        S.laws(d, surface, spec, S.impressions(d, spec), "restricted pairwise union")
    S.same_by_spend(d, surface, spec, S.impressions(d, spec), "restricted pairwise union")
    multi = [q for q in pts if sum(1 for x in q.impressions if x) >= 2]
    # overlaps are counted as at least 1e-4 people; otherwise plain least squares
    err = lambda get: sum(
        (max(1e-4, sum(S.reaches(spec, q.impressions)) - q.reach()) - (sum(S.reaches(spec, q.impressions)) - get(q))) ** 2
        for q in multi
    )
    got = err(lambda q: float(surface.by_impressions(list(q.impressions)).reach()))
    scale = sum(q.reach() ** 2 for q in multi) / len(multi)
    for cand in [truth, np.zeros(p)] + [feasible_lbd(d, p) for _ in range(4)]:
        other = err(lambda q: union(cand, S.reaches(spec, q.impressions), m))
        d.check(
            got <= other * 1.5 + 5e-3 * scale + 0.01,
            f"squared error {got} of the fit, but {other} for the feasible {cand.tolist()} (noise {noise}, truth {truth.tolist()})",
        )
    d.nontrivial(p > 2)
    d.label(f"p={p} noise={noise}")


def many(d):
    """With many publishers, where few points of the cube are admissible, a fit ends and the laws hold."""
    p = d.int(8, 20)
    curves, spec = S.curves(d, p, d.pick([50, 500, 5000]))
    m = [s[3] for s in spec]
    truth = feasible_lbd(d, p)
    pts = []
    for _ in range(d.int(2, 6)):
        xs = S.impressions(d, spec, active=2)
        pts.append(ReachPoint(xs, [union(truth, S.reaches(spec, xs), m) * (1 + 0.1 * (2 * d.unit() - 1))]))
    d.show({"curves (impressions, reach, cost, max reach)": spec, "points": [(list(q.impressions), q.reach()) for q in pts]})
    surface = Surface(curves, pts)
    _bound_search(surface, 2)
    surface._fit()
    for _ in range(4):
        S.laws(d, surface, spec, S.impressions(d, spec), "restricted pairwise union")
    for sampler in (Surface._truncated_uniform_initial_lbd, Surface._scaled_from_simplex_initial_lbd):
        v = sampler(p)
        d.eq(len(v), p, "length of a starting point")
        d.check(feasible(v, 1e-5), f"starting point {v} is not feasible")
    d.nontrivial()
    d.label(f"p={p}")


def deterministic(d):
    """The fit does not depend on the state of the global random generator."""
    p = d.pick([2, 3])
    curves, spec = S.curves(d, p, 200)
    m = [s[3] for s in spec]
    truth = feasible_lbd(d, p)
    pts = []
    for _ in range(p + 1):
        xs = S.impressions(d, spec, active=2)
        pts.append(ReachPoint(xs, [union(truth, S.reaches(spec, xs), m) * (1 + 0.1 * (2 * d.unit() - 1))]))
    xs = S.impressions(d, spec, active=2)
    out = []
    for seed in (1, 77):
        np.random.seed(seed)
        s = Surface(curves, pts)
        _bound_search(s)
        s._fit()
        out.append(float(s.by_impressions(xs).reach()))
    d.show({"curves": spec, "reach": out})
    d.eq(out[1], out[0], "prediction of the same fit with other global random state")
    d.nontrivial()


def feasibility(d):
    """The set of admissible parameters: row sums of the overlap are at most one."""
    p = d.int(1, 6)
    lbd = [d.float(-0.2, 1.5) if d.bool(0.2) else d.float(0, 1) for _ in range(p)]
    s = sum(lbd)
    margins = [1 - x * (s - x) for x in lbd] + [x * 1e6 for x in lbd]
    d.show(lbd)
    if min(abs(v) for v in margins) > 1e-5:
        d.eq(bool(Surface._check_lbd_feasiblity(lbd)), feasible(lbd), f"feasibility of {lbd}")
    # the bound of one coordinate is exactly where feasibility ends
    if feasible(lbd) and p > 1:
        i = d.raw(p)
        bound = Surface._get_feasible_bound(list(lbd), i)
        if 1e-3 < bound < 1e5:
            inside, outside = list(lbd), list(lbd)
            inside[i] = bound * (1 - 1e-5)
            outside[i] = bound * (1 + 1e-5) + 1e-4
            d.check(feasible(inside, 1e-7), f"{inside} should be feasible (bound of {i} is {bound})")
            d.check(not feasible(outside, 0), f"{outside} should not be feasible (bound of {i} is {bound})")
    np.random.seed(d.raw(10 ** 6))
    for sampler in (Surface._truncated_uniform_initial_lbd, Surface._scaled_from_simplex_initial_lbd):
        v = sampler(p)
        d.eq(len(v), p, "length of a starting point")
        d.check(feasible(v, 1e-5), f"starting point {v} is not feasible")
    d.nontrivial(p > 1)


CHECK = Check(
    "C14",
    [
        Sub("fit", fit, 160, 3000),
        Sub("many", many, 24, 400, ends=True),
        Sub("deterministic", deterministic, 32, 400),
        Sub("feasibility", feasibility, 6000, 60000),
    ],
    rule="2-4 Goerg curves with training points from a random admissible parameter vector, exact or with up to 30% noise; union laws, squared error against admissible competitors, determinism; admissible region against its definition; non-trivial: more than two publishers (fit), more than one (feasibility)",
    assumptions=["the number of restarts of the search is reduced (the default of up to 1000 takes minutes per fit)", "squared error may exceed a competitor's by half + 5e-3 of the squared reach: the search is local and stops at improvements below 1e-3"],
)

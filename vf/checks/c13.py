"""C13: pairwise union surface."""
import numpy as np

from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

from vf import surfaces as S
from vf.runner import Check, Sub


def _fit(d, noisy):
    p = d.pick([2, 3, 4, 5]) if d.bool(0.98) else d.int(6, 12)
    curves, spec = S.curves(d, p, d.pick([50, 1000, 20000]))
    m = [s[3] for s in spec]
    a = S.feasible_a(d, p, tight=d.bool(0.3))
    n = p * (p - 1) // 2 + d.int(1, 4) if not noisy else d.int(1, 8) if d.bool(0.97) else d.int(20, 60)
    pts = []
    for _ in range(n):
        xs = S.impressions(d, spec, active=2)
        r = S.reaches(spec, xs)
        u = S.pairwise_union(a, r, m)
        if noisy:
            u *= 1 + d.pick([0.02, 0.1, 0.4]) * (2 * d.unit() - 1)
        pts.append(ReachPoint(xs, [u]))
    before = [(tuple(q.impressions), q.reach()) for q in pts]
    surface = PairwiseUnionReachSurface(curves, pts)
    surface._fit()
    d.eq([(tuple(q.impressions), q.reach()) for q in pts], before, "training points after the fit")
    return p, spec, m, a, pts, surface


def noisy(d):
    """Any training data: the union laws hold, and no feasible overlap fits better."""
    p, spec, m, a, pts, surface = _fit(d, True)
    d.show({"curves (impressions, reach, cost, max reach)": spec, "points": [(list(q.impressions), q.reach()) for q in pts]})
    for _ in range(4):
        S.laws(d, surface, spec, S.impressions(d, spec), "pairwise union")
    S.same_by_spend(d, surface, spec, S.impressions(d, spec), "pairwise union")
    got = S.loss(surface, pts)
    scale = sum(q.reach() ** 2 for q in pts)
    for cand in [a] + [S.feasible_a(d, p, tight=d.bool(0.3)) for _ in range(6)] + [np.zeros((p, p))]:
        other = sum((S.pairwise_union(cand, S.reaches(spec, q.impressions), m) - q.reach()) ** 2 for q in pts)
        d.check(
            got <= other + 1e-4 * scale / len(pts) + 1e-6,
            f"squared error {got} of the fit, but {other} for the feasible overlap {cand.tolist()}",
        )
    d.nontrivial(p > 2)
    d.label(f"p={p}")


def exact(d):
    """Enough exact training points: the true surface is recovered."""
    p, spec, m, a, pts, surface = _fit(d, False)
    z = np.array(
        [
            [r[i] * r[j] / max(m[i], m[j]) for i in range(p) for j in range(i)]
            for r in (S.reaches(spec, q.impressions) for q in pts)
        ]
    )
    smallest = np.linalg.svd(z, compute_uv=False)[-1] if len(z) >= z.shape[1] else 0.0
    # the solver stops at a relative gap of 1e-6: how far off may the overlaps be?
    gap = 1e-5 * sum((sum(S.reaches(spec, q.impressions)) - q.reach()) ** 2 for q in pts) + 1e-6
    off = np.sqrt(gap) / smallest if smallest > 0 else np.inf
    z = z / np.abs(z).max()
    d.show({"curves": spec, "overlap": a.tolist(), "points": len(pts)})
    if np.linalg.matrix_rank(z, tol=1e-2) < p * (p - 1) // 2:
        d.label("not identified")
        return
    for _ in range(3):
        xs = S.impressions(d, spec)
        r = S.reaches(spec, xs)
        want = S.pairwise_union(a, r, m)
        got = float(surface.by_impressions(xs).reach())
        weight = np.linalg.norm([r[i] * r[j] / max(m[i], m[j]) for i in range(p) for j in range(i)])
        tol = max(5e-3 * max(m), off * weight)
        if tol > 0.05 * max(m):
            d.label("not identified")
            continue
        d.close(got, want, f"union at {xs} (single reaches {r})", rel=5e-3, abs_=tol)
        d.nontrivial(p > 2)


def refusals(d):
    curves, spec = S.curves(d, 2, 100)
    d.show(spec)
    a, b = ReachPoint([5, 5], [3]), ReachPoint([5, 5, 5], [3])
    d.raises((ValueError, IndexError), lambda: PairwiseUnionReachSurface(curves, []), "no training point")
    d.raises(ValueError, lambda: PairwiseUnionReachSurface(curves, [a, b]), "points of different dimension")
    d.nontrivial()


CHECK = Check(
    "C13",
    [Sub("noisy", noisy, 4500, 36000), Sub("exact", exact, 2400, 19200), Sub("refusals", refusals, 50, 200)],
    rule="2-5 (2%: up to 12) Goerg curves, training points from a random feasible overlap matrix, exact or with up to 40% noise; the fitted surface is compared with the union laws, with the true surface (exact, when identified) and in squared error with feasible competitors (noisy); non-trivial: more than two publishers",
    assumptions=["tolerance of 1e-4 (laws), 5e-3 (recovery; up to 5e-2 by the conditioning of the training points) of the audience for the QP solver"],
)

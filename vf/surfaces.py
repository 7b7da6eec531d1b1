"""Generated reach surfaces: single publisher curves, true overlap, training points."""
import numpy as np

from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint


class Setup:
    pass


def curves(d, p, scale):
    """Goerg curves; their closed form is checked on its own in C09."""
    out, spec = [], []
    for _ in range(p):
        reach = max(2, int(scale * d.float(0.05, 1)))
        imps = int(reach * d.float(1.2, 4)) + 2
        cost = d.log_float(0.5, 500)
        out.append(GoergModel([ReachPoint([imps], [reach], [cost])]))
        rho = imps * reach / (imps - reach)
        spec.append((imps, reach, cost, rho))
    return out, spec


def reaches(spec, imps):
    return [rho * x / (x + rho) for (_, _, _, rho), x in zip(spec, imps)]


def impressions(d, spec, active=None):
    """An impression vector; at least `active` positive entries if given."""
    xs = [int(s[0] * d.float(0.05, 3)) + 1 if d.bool(0.75) else 0 for s in spec]
    if active:
        for i in d.perm(len(spec)):
            if sum(1 for x in xs if x) >= active:
                break
            if not xs[i]:
                xs[i] = int(spec[i][0] * d.float(0.05, 3)) + 1
    return xs


def pairwise_union(a, r, m):
    """a: symmetric p x p matrix with zero diagonal (the documented formula)."""
    p = len(r)
    return sum(r) - 0.5 * sum(
        a[i][j] * r[i] * r[j] / max(m[i], m[j]) for i in range(p) for j in range(p)
    )


def feasible_a(d, p, tight=False):
    a = np.zeros((p, p))
    for i in range(p):
        for j in range(i):
            a[i, j] = a[j, i] = d.float(0, 1) if d.bool(0.85) else 0.0
    top = a.sum(axis=1).max()
    if top > 0:
        a = a / top * (1.0 if tight else d.float(0.05, 0.98))
    return a


def laws(d, surface, spec, xs, what, slack=1e-4):
    """What every union reach must satisfy; returns the reach at xs."""
    p = len(spec)
    r = reaches(spec, xs)
    u = float(surface.by_impressions(xs).reach())
    tol = slack * (sum(s[3] for s in spec) + 1)
    d.check(u == u, f"{what}: reach is nan at {xs}")
    d.check(u <= sum(r) + tol, f"{what}: union {u} above the sum of reaches {r} at {xs}")
    d.check(u >= max(r) - tol, f"{what}: union {u} below the largest single reach {r} at {xs}")
    # more impressions at one publisher
    i = d.raw(p)
    ys = list(xs)
    ys[i] = ys[i] * 2 + 10
    v = float(surface.by_impressions(ys).reach())
    d.check(v >= u - tol, f"{what}: union fell from {u} to {v} from {xs} to {ys}")
    # ... adds at most the additional reach of that publisher
    gain = reaches(spec, ys)[i] - r[i]
    d.check(v <= u + gain + tol, f"{what}: union grew from {u} to {v}, the publisher by {gain}")
    # only one active publisher: its own curve
    only = [x if j == i else 0 for j, x in enumerate(ys)]
    w = float(surface.by_impressions(only).reach())
    d.check(abs(w - reaches(spec, only)[i]) <= tol, f"{what}: only publisher {i} active: {w} vs {reaches(spec, only)[i]}")
    z = float(surface.by_impressions([0] * p).reach())
    d.check(abs(z) <= tol, f"{what}: reach {z} without impressions")
    return u


def same_by_spend(d, surface, spec, xs, what):
    spends = [x * s[2] / s[0] for x, s in zip(xs, spec)]
    a = float(surface.by_impressions(xs).reach())
    rp = surface.by_spend(spends)
    d.close(float(rp.reach()), a, f"{what}: reach by spend vs by impressions at {xs}", rel=1e-6, abs_=1e-6)
    for got, x in zip(rp.impressions, xs):
        d.close(got, x, f"{what}: impressions bought", rel=1e-9, abs_=1e-9)


def loss(surface, points):
    return sum((float(surface.by_impressions(list(q.impressions)).reach()) - q.reach()) ** 2 for q in points)

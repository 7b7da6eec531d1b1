"""C10: Gamma-Poisson curves are the thinned shifted Gamma-Poisson distribution."""
import math

import numpy as np

from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

from vf import gen
from vf.runner import Check, Sub


def nb(k, alpha, s):
    """Poisson with a Gamma(alpha, scale s) mean."""
    if k < 0:
        return 0.0
    if s == 0:
        return 1.0 if k == 0 else 0.0
    return math.exp(
        math.lgamma(k + alpha) - math.lgamma(alpha) - math.lgamma(k + 1) + k * math.log(s / (1 + s)) - alpha * math.log(1 + s)
    )


def thinned(k, alpha, beta, p):
    """P(k shown) when the inventory is 1 + NB(alpha, beta) and each is shown with prob. p."""
    return (1 - p) * nb(k, alpha, p * beta) + p * nb(k - 1, alpha, p * beta)


def _params(d):
    alpha, beta = d.log_float(0.1, 10), d.log_float(0.05, 10)
    if d.bool(0.3):
        # large inventories, as long as frequencies above 1000 are negligible
        alpha, beta = d.log_float(2, 60), d.log_float(2, 40)
    while not _negligible(alpha, beta):
        beta *= 0.8
    return alpha, beta, d.log_float(3, 1e7)


def _negligible(alpha, beta):
    ratio = beta / (1 + beta) * (999 + alpha) / 1000
    return ratio < 1 and nb(998, alpha, beta) / (1 - ratio) < 1e-11


def _model(d, alpha, beta, N, spend=None):
    """A model whose (slow, approximate) parameter search is replaced by given values."""
    imps = max(1.0, N * 0.1)
    point = ReachPoint([imps], [N * 0.05, N * 0.01], [spend]) if spend else ReachPoint([imps], [N * 0.05, N * 0.01])
    fixed = d.bool(0.3)
    m = GammaPoissonModel([point], max_reach=N if fixed else None)
    imax = m._expected_impressions(N, alpha, beta)
    d.close(imax, N * (1 + alpha * beta), "size of the inventory", rel=1e-9)
    if fixed:
        m._fit_histogram_fixed_N = lambda *a, **k: (imax, alpha, beta)
    else:
        m._fit_histogram_chi2_distance = lambda *a, **k: (imax, N, alpha, beta)
    m._fit()
    return m, imax, imps


def curve(d):
    alpha, beta, N = _params(d)
    spend = d.log_float(0.01, 1e4) if d.bool(0.7) else None
    m, imax, imps = _model(d, alpha, beta, N, spend)
    mf = d.pick([1, 2, 4, 10, 30])
    d.show({"alpha": alpha, "beta": beta, "N": N, "max_frequency": mf})
    d.close(m.max_reach, N, "max_reach", rel=1e-12)
    prev = None
    xs = sorted([d.float(0, 1) * imax, d.pick([0.0, imax, imax * 1.5, imax * 1e6, imax - 1, 1.0])])
    for x in xs:
        rp = m.by_impressions([x], mf)
        got = gen.frozen_kplus(rp)
        d.eq(len(got), mf, "number of k+ reaches")
        d.eq(list(rp.impressions), [x], "impressions of the point")
        p = min(x, imax - 1) / imax
        acc = 1.0
        for k in range(1, mf + 1):
            acc -= thinned(k - 1, alpha, beta, p)
            d.close(got[k - 1], N * acc, f"{k}+ reach at {x} of {imax} impressions", rel=1e-6, abs_=1e-7 * N)
        if prev:
            d.check(all(b >= a - 1e-9 * N for a, b in zip(prev, got)), "reach fell with more impressions")
        prev = got
        if spend:
            d.close(rp.spends[0], x * spend / imps, "spend of the point", rel=1e-9)
        else:
            d.eq(rp.spends, None, "spend of a point without price")
    if spend:
        x = d.float(0, 1.3) * imax
        a = gen.frozen_kplus(m.by_spend([x * spend / imps], mf))
        b = gen.frozen_kplus(m.by_impressions([x], mf))
        for u, v in zip(a, b):
            d.close(u, v, "reach by spend vs by impressions", rel=1e-7, abs_=1e-9 * N)
    else:
        d.raises(ValueError, lambda: m.by_spend([1.0]), "by_spend without a price")
    for v in ([], [1, 2]):
        d.raises(ValueError, lambda: m.by_impressions(v), f"by_impressions({v})")
        d.raises(ValueError, lambda: m.by_spend(v), f"by_spend({v})")
    d.nontrivial(mf > 1)


def histogram(d):
    """The expected histogram used for fitting, at arbitrary frequencies."""
    alpha, beta, N = _params(d)
    m = GammaPoissonModel([ReachPoint([10], [5, 2])])
    imax = N * (1 + alpha * beta)
    I = imax * d.float(0.001, 0.999)
    f = d.int(1, 25)
    d.show({"alpha": alpha, "beta": beta, "N": N, "I/Imax": I / imax, "max_freq": f})
    h = m._expected_histogram(I, imax, N, alpha, beta, f)
    d.eq(len(h), f, "length of the histogram")
    for k in range(1, f + 1):
        d.close(h[k - 1], N * thinned(k, alpha, beta, I / imax), f"people reached exactly {k} times", rel=1e-6, abs_=1e-9 * N)
    lo, hi = sorted([d.int(0, 20), d.int(0, 20)])
    ks = np.arange(lo, hi + 1)
    got = m._kreach(ks, I, imax, alpha, beta)
    for k, g in zip(ks, got):
        want = thinned(int(k), alpha, beta, I / imax)
        d.close(g, want, f"probability of {k}", rel=1e-6, abs_=1e-9)
    d.nontrivial(f > 1)


def refusals(d):
    R = d.int(1, 1000)
    d.show(R)
    d.raises(ValueError, lambda: GammaPoissonModel([ReachPoint([d.int(0, R - 1)], [R])]), "fewer impressions than people")
    d.raises(ValueError, lambda: GammaPoissonModel([ReachPoint([0], [0])]), "no impressions")
    p = ReachPoint([R + 1], [R], [1.0])
    d.raises(ValueError, lambda: GammaPoissonModel([p, p]), "two points")
    d.raises(ValueError, lambda: GammaPoissonModel([ReachPoint([R, R], [R])]), "two publishers")
    d.nontrivial()


def fitted(d):
    """Real fits: the audience respects its bounds, and the curve its shape."""
    ks = [d.int(5, 300)]
    for _ in range(d.pick([0, 1])):
        ks.append(int(ks[-1] * d.float(0.1, 0.7)))
    imps = int(sum(ks) * d.float(1.0, 2.0)) + 1
    N = None if d.bool(0.4) else ks[0] * d.float(1.2, 5)
    m = GammaPoissonModel([ReachPoint([imps], list(ks), [2.0])], max_reach=N)
    m._fit()
    d.show({"impressions": imps, "k+": ks, "given N": N, "max_reach": m.max_reach})
    if N:
        d.close(m.max_reach, N, "given audience", rel=1e-12)
    else:
        d.check(ks[0] * (1 - 1e-9) <= m.max_reach <= 100 * ks[0] * (1 + 1e-9), f"audience {m.max_reach} for reach {ks[0]}")
    prev = None
    for x in (0, imps // 2, imps, 3 * imps):
        got = gen.frozen_kplus(m.by_impressions([x], 3))
        d.check(all(b <= a + 1e-6 for a, b in zip(got, got[1:])), f"k+ reaches increase: {got}")
        d.check(got[-1] >= -1e-6 and got[0] <= m.max_reach * (1 + 1e-6), f"reach out of range: {got}")
        if prev:
            d.check(all(b >= a - 1e-6 for a, b in zip(prev, got)), f"reach fell: {prev} -> {got}")
        prev = got
    d.nontrivial()


CHECK = Check(
    "C10",
    [
        Sub("curve", curve, 280, 6000),
        Sub("histogram", histogram, 400, 8000),
        Sub("refusals", refusals, 200, 1000),
        Sub("fitted", fitted, 24, 400),
    ],
    rule="random alpha, beta, N (so that the mass beyond frequency 1000 is negligible) put in place of the parameter search, and queries from 0 to 1e6 times the inventory, compared with the closed form of binomial thinning of 1 + negative binomial; plus real fits of small histograms; non-trivial: several frequencies",
    assumptions=["parameter search replaced by given values in `curve` (the same two methods the repository's own tests replace)"],
)

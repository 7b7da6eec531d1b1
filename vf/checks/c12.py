"""C12: Dirac mixture curves are mixtures of Poisson distributions scaled with impressions."""
import math

import numpy as np

from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import (
    DiracMixtureSinglePublisherModel,
    UnivariateMixedPoissonOptimizer,
)
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

from vf import gen
from vf.runner import Check, Sub


def poisson(k, mean):
    if mean == 0:
        return 1.0 if k == 0 else 0.0
    return math.exp(k * math.log(mean) - mean - math.lgamma(k + 1))


def truncated(mean, top):
    v = [poisson(k, mean) for k in range(top)]
    # direct sum of the tail where it is small, complement otherwise
    tail = math.fsum(poisson(k, mean) for k in range(top, top + 400 + int(4 * mean)))
    return v + [tail]


def _histogram(d, top):
    """A histogram over 0..top from a random Poisson mixture, in counts."""
    j = d.int(1, 3)
    means = [d.float(0.02, top * 0.7 + 0.3) for _ in range(j)]
    ws = [d.float(0.1, 1) for _ in range(j)]
    s = sum(ws)
    pmf = [0.0] * (top + 1)
    for w, m in zip(ws, means):
        for k, p in enumerate(truncated(m, top)):
            pmf[k] += w / s * p
    return pmf


def weights(d):
    """The optimiser: weights on the simplex, predictions are the scaled mixture."""
    top = d.int(1, 6)
    size = d.pick([200, 5000, 10 ** 6])
    hist = np.array([round(size * p) for p in _histogram(d, top)])
    if d.bool(0.2):
        hist = np.array([d.int(0, 50) for _ in range(top + 1)])
    if sum(hist) == 0:
        d.reject()
    n = d.pick([10, 40, 100])
    o = UnivariateMixedPoissonOptimizer(hist, n)
    comps = [float(c) for c in o.components]
    d.show({"histogram": hist.tolist(), "ncomponents": n})
    d.check(comps and all(0 <= c <= top + 2 for c in comps), f"components outside [0, {top + 2}]: {comps}")
    try:
        o.fit()
    except Exception as e:  # "a tiny chance of exception" in the solver is documented
        d.label("solver failure " + type(e).__name__)
        return
    ws = None if o.ws is None else [float(w) for w in o.ws]
    if ws is None:
        d.label("solver gave no weights")
        return
    d.eq(len(ws), len(comps), "number of weights")
    d.check(min(ws) > -1e-4, f"negative weight {min(ws)}")
    d.close(sum(ws), 1, "sum of the weights", abs_=1e-3)
    # highest likelihood: no component gains anything by a larger weight
    pure = [truncated(c, top) for c in comps]
    total = float(sum(hist))
    fit = [math.fsum(max(w, 0.0) * p[k] for w, p in zip(ws, pure)) for k in range(top + 1)]
    gain = [math.fsum(float(h) / total * p[k] / fit[k] if fit[k] > 0 else math.inf for k, h in enumerate(hist) if h > 0) for p in pure]
    d.check(max(gain) <= 1.02, f"component {comps[gain.index(max(gain))]} deserves more weight: the likelihood is not the highest, slope {max(gain)}")
    for scale in (1.0, d.pick([0.0, 0.5, 2.0, 10.0]), d.log_float(0.001, 50)):
        cap = d.pick([None, 1, 2, 5, 12])
        got = o.predict(scale) if cap is None else o.predict(scale, cap)
        t = top if cap is None else cap
        d.eq(len(got), t + 1, f"length of the prediction capped at {cap}")
        want = [0.0] * (t + 1)
        for w, c in zip(ws, comps):
            for k, p in enumerate(truncated(c * scale, t)):
                want[k] += w * p
        for k in range(t + 1):
            d.close(got[k], want[k], f"P({k}) at {scale} times the impressions (cap {cap})", rel=1e-6, abs_=1e-7)
    d.nontrivial(top > 1)


def poissons(d):
    mean = d.pick([0, 0.5, 3]) if d.bool(0.3) else d.log_float(1e-6, 60)
    top = d.int(1, 20)
    d.show((mean, top))
    v = UnivariateMixedPoissonOptimizer.truncated_poisson_pmf_vec(mean, top)
    want = truncated(mean, top)
    d.eq(len(v), top + 1, "length")
    for k in range(top + 1):
        d.close(v[k], want[k], f"P({k}) of a Poisson of mean {mean} capped at {top}", rel=1e-6, abs_=1e-12)
    d.close(sum(v), 1, "total", abs_=1e-9)
    d.nontrivial(mean > 0)


def refusals(d):
    kind = d.raw(8)
    R = d.int(1, 500)
    d.show((kind, R))
    ok = lambda: ReachPoint([R + 5], [R], [1.0], universe_size=2 * R)
    C = DiracMixtureSinglePublisherModel
    if kind == 0:
        d.raises(ValueError, lambda: C([ok(), ok()]), "two points")
    elif kind == 1:
        d.raises(ValueError, lambda: C([ReachPoint([0], [0], universe_size=10)]), "no impressions")
    elif kind == 2:
        d.raises(ValueError, lambda: C([ReachPoint([d.int(0, R - 1)], [R], universe_size=2 * R)]), "fewer impressions than people")
    elif kind == 3:
        d.raises(ValueError, lambda: C([ReachPoint([R + 5], [R])]), "no universe size")
    elif kind == 4:
        m = C([ok()], ncomponents=5)
        for v in ([], [1, 2]):
            d.raises(ValueError, lambda: m.by_impressions(v), f"by_impressions({v})")
            d.raises(ValueError, lambda: m.by_spend(v), f"by_spend({v})")
    elif kind == 5:
        m = C([ReachPoint([R + 5], [R], universe_size=2 * R)], ncomponents=5)
        d.raises(ValueError, lambda: m.by_spend([1.0]), "by_spend without a price")
        d.raises(ValueError, lambda: m.impressions_for_spend(1.0), "impressions_for_spend without a price")
    elif kind == 6:
        bad = d.pick([[5], [], [1, -1], [3, 2, -1], [0, 0], [0, 0, 0]])
        d.raises(ValueError, lambda: UnivariateMixedPoissonOptimizer.validate_frequency_histogram(np.array(bad)), f"histogram {bad}")
        d.raises(ValueError, lambda: UnivariateMixedPoissonOptimizer(np.array(bad), 10), f"histogram {bad}")
    else:
        good = [d.int(0, 5) for _ in range(d.int(2, 6))]
        if sum(good):
            UnivariateMixedPoissonOptimizer.validate_frequency_histogram(np.array(good))
    d.nontrivial()


def curve(d):
    """The reach curve: shape, scale, agreement with the training point."""
    top = d.int(1, 5)
    universe = d.pick([500, 20000, 10 ** 6, 4 * 10 ** 9])
    pmf = _histogram(d, top)
    ks = [int(round(universe * sum(pmf[k:]))) for k in range(1, top + 1)]
    if ks[0] < 5 or universe - ks[0] < 5:
        d.reject()
    imps = sum(ks) + d.int(0, sum(ks))
    spend = d.log_float(0.1, 1e4)
    m = DiracMixtureSinglePublisherModel([ReachPoint([imps], list(ks), [spend], universe_size=universe)], ncomponents=d.pick([30, 60]))
    d.show({"universe": universe, "impressions": imps, "k+": ks})
    m._fit()
    if not hasattr(m, "optimizer") or getattr(m.optimizer, "ws", None) is None:
        d.label("solver gave no weights")
        return
    mf = d.pick([1, 2, 4, 8])
    prev = None
    for x in sorted({0, imps, 2 * imps, 1000 * imps} | {d.int(1, 3 * imps) for _ in range(2)}):
        rp = m.by_impressions([x], mf)
        got = [int(v) for v in gen.frozen_kplus(rp)]
        slack = 2 + 1e-3 * universe  # solver tolerance
        d.eq(len(got), mf, "number of k+ reaches")
        d.check(all(b <= a + slack for a, b in zip(got, got[1:])), f"k+ reaches increase: {got}")
        d.check(-slack <= min(got) and max(got) <= universe + slack, f"reach outside [0, {universe}]: {got}")
        # the mixture itself, to the nearest person
        ws, comps = [float(v) for v in m.optimizer.ws], [float(c) for c in m.optimizer.components]
        tails = [truncated(c * x / imps, mf) for c in comps]
        for k in range(1, mf + 1):
            exact = universe * math.fsum(w * math.fsum(t[k:]) for w, t in zip(ws, tails))
            d.check(abs(got[k - 1] - exact) <= 0.5 + 1e-8 * universe + 1e-6 * abs(exact), f"{k}+ reach {got[k - 1]} at {x} impressions, the mixture has {exact}")
        if x == 0:
            d.check(max(got) <= slack, f"reach {got} without impressions")
        if prev:
            d.check(all(b >= a - slack for a, b in zip(prev, got)), f"reach fell: {prev} -> {got}")
        prev = got
        d.close(rp.spends[0], x * spend / imps, "spend of the point", rel=1e-9)
        bs = [int(v) for v in gen.frozen_kplus(m.by_spend([x * spend / imps], mf))]
        d.check(all(abs(a - b) <= 1 + 1e-6 * universe for a, b in zip(bs, got)), f"by spend {bs}, by impressions {got}")
        if x == imps:
            # the training histogram is a Poisson mixture, so the fit must be close
            for k in range(1, min(mf, top) + 1):
                err = abs(got[k - 1] - ks[k - 1]) / universe
                d.check(err <= 0.02 + 2 / universe, f"{k}+ reach {got[k - 1]} at the training point, {ks[k - 1]} observed, universe {universe}")
    d.nontrivial(top > 1)


CHECK = Check(
    "C12",
    [
        Sub("weights", weights, 400, 4000),
        Sub("poissons", poissons, 3000, 24000),
        Sub("refusals", refusals, 400, 4000),
        Sub("curve", curve, 320, 3000),
    ],
    rule="histograms drawn from random Poisson mixtures (and a fifth arbitrary ones), universes up to 4e9, compared with a direct evaluation of the mixture at scaled means; non-trivial: more than one observed frequency, positive mean (poissons)",
    assumptions=["tolerances of 1e-3 (weights, shape) and 2% of the universe (match of the training point) allow for the convex solver's accuracy; solver failures, documented as possible, are skipped"],
)

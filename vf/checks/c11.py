"""C11: the k-inflated Gamma-Poisson distribution and its curves."""
import math

import numpy as np

from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import (
    KInflatedGammaPoissonDistribution,
    KInflatedGammaPoissonModel,
)
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

from vf import gen
from vf.runner import Check, Sub

TOP = 1000


def gp(n, alpha, beta):
    """Shifted Gamma-Poisson: n - 1 is Poisson with a Gamma(alpha, scale beta) mean."""
    k = n - 1
    return math.exp(
        math.lgamma(k + alpha)
        - math.lgamma(alpha)
        - math.lgamma(k + 1)
        + k * math.log(beta / (1 + beta))
        - alpha * math.log(1 + beta)
    )


def _dist(d):
    alpha = d.log_float(0.05, 20)
    beta = d.log_float(0.05, 8)
    k = d.size(0, 6)
    a = [d.float(0, 1) if d.bool(0.8) else 0.0 for _ in range(k)]
    mode = d.raw(4)
    s = sum(a)
    if s > 0 and mode < 3:
        a = [x / s * d.pick([0.5, 0.9, 0.2, 1.0]) for x in a]
    return alpha, beta, a


def _reference(alpha, beta, a):
    s = sum(a)
    if s > 1:
        a = [x / s for x in a]
        s = 1.0
    k = len(a)
    t = sum(gp(n, alpha, beta) for n in range(1, k + 1))
    f = (1 - s) / (1 - t)
    return [0.0] + list(a) + [f * gp(n, alpha, beta) for n in range(k + 1, TOP)]


def distribution(d):
    alpha, beta, a = _dist(d)
    given = list(a)
    arg = d.pick([list, np.array])(a)
    dist = KInflatedGammaPoissonDistribution(alpha, beta, arg)
    ref = _reference(alpha, beta, a)
    d.show({"alpha": alpha, "beta": beta, "a": a})
    if 1 - sum(gp(n, alpha, beta) for n in range(1, len(a) + 1)) < 1e-3:
        d.reject()
    d.eq(list(arg), given, "the caller's inflation vector")
    for n in sorted({1, 2, 3, len(a), len(a) + 1, 20, 100} | {d.int(1, 300) for _ in range(4)}):
        if n < 1:
            continue
        d.close(dist.pmf(n), ref[n], f"pmf({n})", rel=1e-6, abs_=1e-9)
    allp = np.asarray(dist.pmf(np.arange(0, TOP)))
    d.close(allp.sum(), 1.0, "total probability", rel=1e-9)
    d.check(allp.min() > -1e-9, "negative probability")
    d.close(allp[0], 0.0, "pmf(0)")
    mean = sum(n * p for n, p in enumerate(ref))
    d.close(dist.expected_value(), mean, "expected value", rel=1e-6)
    d.nontrivial(len(a) > 0)
    d.label(f"k={len(a)}")


def thinning(d):
    alpha, beta, a = _dist(d)
    if 1 - sum(gp(n, alpha, beta) for n in range(1, len(a) + 1)) < 1e-3:
        d.reject()
    dist = KInflatedGammaPoissonDistribution(alpha, beta, a)
    ref = _reference(alpha, beta, a)
    p = d.pick([0.0, 1.0, 0.5]) if d.bool(0.3) else d.float(0.001, 0.999)
    m = d.int(1, 12)
    d.show({"alpha": alpha, "beta": beta, "a": a, "p": p})
    # brute force thinning of the reference pmf, by recurrence in n
    want = [0.0] * m
    for n in range(1, 400):
        w = ref[n]
        for k in range(0, min(n, m - 1) + 1):
            b = math.comb(n, k) * p ** k * (1 - p) ** (n - k) if n < 300 else 0.0
            want[k] += w * b
    got = dist.kreach(np.arange(0, m), p)
    d.eq(len(got), m, "number of probabilities")
    tail = max(0.0, 1 - sum(ref[:300]))
    tol = 1e-7 + tail
    for k in range(m):
        d.close(got[k], want[k], f"P(reached exactly {k} times)", rel=1e-6, abs_=tol)
    lo = d.int(0, m - 1)
    part = dist.kreach(np.arange(lo, m), p)
    for k in range(lo, m):
        d.close(part[k - lo], got[k], f"P({k}) asked from {lo}", rel=1e-9, abs_=1e-12)
    acc = 1.0
    for k in range(0, m):
        d.close(dist.kplusreach(k, p), acc, f"P(reached at least {k} times)", rel=1e-9, abs_=1e-9)
        acc -= got[k]
    d.eq(len(dist.kreach(np.arange(1, 1), p)), 0, "no frequencies asked")
    bad = [0, 2] if d.bool() else [1, 3, 4]
    d.raises(RuntimeError, lambda: dist.kreach(bad, p), "frequencies with gaps")
    d.nontrivial(0 < p < 1)


def fitted(d):
    """Curves fitted to small histograms: shape, scale and independence of the history."""
    f = d.int(2, 4)
    ks = [d.int(8, 400)]
    for _ in range(f - 1):
        ks.append(int(ks[-1] * d.float(0.1, 0.8)))
    imps = sum(ks) + d.int(1, 1 + sum(ks))
    spend = d.log_float(0.5, 500)
    kmax = d.pick([0, 1])
    rp = ReachPoint([imps], list(ks), [spend])
    m = KInflatedGammaPoissonModel([rp], kmax=kmax)
    m._fit()
    N = m.max_reach
    d.show({"impressions": imps, "k+": ks, "kmax": kmax, "N": N})
    d.check(math.isfinite(N) and N > 0, f"audience {N}")
    mf = d.pick([1, 2, 5])
    prev = None
    for x in sorted({0, imps, 2 * imps, 10 ** 9 * imps} | {d.int(1, 3 * imps) for _ in range(3)}):
        got = gen.frozen_kplus(m.by_impressions([x], mf))
        d.eq(len(got), mf, "number of k+ reaches")
        for u, v in zip(got, got[1:]):
            d.check(v <= u + 1e-6 * N, f"k+ reaches increase: {got}")
        d.check(-1e-6 * N <= got[-1] and got[0] <= N * (1 + 1e-6), f"reach outside [0, {N}]: {got}")
        if x == 0:
            d.close(got[0], 0, "reach without impressions", abs_=1e-6 * N)
        if prev:
            d.check(all(b >= a - 1e-6 * N for a, b in zip(prev, got)), f"reach fell from {prev} to {got} at {x}")
        prev = got
        by_spend = gen.frozen_kplus(m.by_spend([x * spend / imps], mf))
        for u, v in zip(by_spend, got):
            d.close(u, v, f"reach by spend at {x} impressions", rel=1e-6, abs_=1e-6 * N)
    # the whole inventory reaches everybody
    d.close(prev[0], N, "reach of the whole inventory", rel=1e-6)
    d.close(m.max_reach, N, "audience after queries", rel=1e-12)
    d.nontrivial()


CHECK = Check(
    "C11",
    [
        Sub("distribution", distribution, 1500, 30000),
        Sub("thinning", thinning, 500, 10000),
        Sub("fitted", fitted, 64, 1200),
    ],
    rule="random parameters alpha, beta and inflation vectors (0-6 values, zero entries, sums up to and above 1), compared with a direct evaluation of the documented formula and a brute force binomial thinning; fitted curves over random small histograms; non-trivial: at least one inflated value (distribution), 0 < p < 1 (thinning)",
    assumptions=["probability beyond frequency 1000 (300 in the thinning reference) is negligible or allowed for", "fitted curves with kmax <= 1 and at most 4 frequencies, to bound the time of the optimiser"],
)

"""C16: impression and pricing generators follow their documented distributions."""
import math
from collections import Counter

import numpy as np

from wfa_planning_evaluation_framework.data_generators.fixed_price_generator import FixedPriceGenerator
from wfa_planning_evaluation_framework.data_generators.heavy_tailed_impression_generator import (
    HeavyTailedImpressionGenerator,
)
from wfa_planning_evaluation_framework.data_generators.heterogeneous_impression_generator import (
    HeterogeneousImpressionGenerator,
)
from wfa_planning_evaluation_framework.data_generators.homogeneous_impression_generator import (
    HomogeneousImpressionGenerator,
)
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

from vf.runner import Check, Sub


def zeta(s):
    n = 60
    head = math.fsum(k ** -s for k in range(1, n))
    # Euler-Maclaurin for the tail
    return head + n ** (1 - s) / (s - 1) + 0.5 * n ** -s + s * n ** (-s - 1) / 12


def surprising(seen, n, p):
    """Is seen out of n events of probability p less likely than about 1e-13 (Chernoff bound)?"""
    p = min(max(p, 0.0), 1.0)
    x = seen / n
    kl = 0.0
    if x > 0:
        if p == 0:
            return True
        kl += x * math.log(x / p)
    if x < 1:
        if p == 1:
            return True
        kl += (1 - x) * math.log((1 - x) / (1 - p))
    return n * kl > 30


def _spec(d):
    kind = d.pick(["homogeneous", "heterogeneous", "heavy"])
    if kind == "homogeneous":
        lam = d.pick([0.0, 0.5, 3.0, 9.0]) if d.bool() else d.log_float(0.05, 12)
        make = lambda n, g: HomogeneousImpressionGenerator(n=n, poisson_lambda=lam, random_generator=g)
        pmf = lambda k: math.exp(-lam + (k - 1) * math.log(lam) - math.lgamma(k)) if lam else float(k == 1)
        mean, var = 1 + lam, lam
        params = {"lambda": lam}
    elif kind == "heterogeneous":
        a, b = d.log_float(0.02, 8), d.log_float(0.1, 6)
        make = lambda n, g: HeterogeneousImpressionGenerator(n=n, gamma_shape=a, gamma_scale=b, random_generator=g)
        pmf = lambda k: math.exp(
            math.lgamma(k - 1 + a) - math.lgamma(a) - math.lgamma(k) + (k - 1) * math.log(b / (1 + b)) - a * math.log(1 + b)
        )
        mean, var = 1 + a * b, a * b * (1 + b)
        params = {"shape": a, "scale": b}
    else:
        s = d.float(2.1, 2.4) if d.bool() else d.float(2.0, 6.0)
        make = lambda n, g: HeavyTailedImpressionGenerator(n=n, zeta_s=s, random_generator=g)
        z = zeta(s)
        pmf = lambda k: k ** -s / z
        mean = var = None
        params = {"zeta_s": s}
    return kind, params, make, pmf, mean, var


def users(d):
    """Every user 0..n-1 appears, everything is reproducible, nothing else is touched."""
    kind, params, make, pmf, mean, var = _spec(d)
    n = d.size(0, 60)
    seed = d.seed()
    d.show({"kind": kind, "params": params, "n": n, "seed": seed})
    g1, g2 = make(n, np.random.default_rng(seed)), make(n, np.random.default_rng(seed))
    first = list(g1())
    d.eq(sorted(set(first)), list(range(n)), "the users that see impressions")
    np.random.seed(d.raw(1000))
    same = list(g2())
    d.eq([int(x) for x in same], [int(x) for x in first], "impressions with the same seed")
    # a second call continues the random sequence
    again = list(g1())
    d.eq(sorted(set(again)), list(range(n)), "the users of a second call")
    if n >= 40 and len(first) > 60:
        d.check(again != first, "two successive calls of one generator give the same impressions")
        other = list(make(n, np.random.default_rng(seed + 1))())
        d.check(other != first, "another seed gives the same impressions")
    d.nontrivial(n > 2)
    d.label(kind)


def distribution(d):
    """Frequencies follow the documented distribution; the order is random."""
    kind, params, make, pmf, mean, var = _spec(d)
    # many users where the tail is heavy, so that its end is seen
    n = 20000 if params.get("zeta_s", 9) < 2.4 else d.int(2000, 5000)
    imps = list(make(n, np.random.default_rng(d.seed()))())
    counts = Counter(imps)
    d.show({"kind": kind, "params": params, "n": n, "impressions": len(imps)})
    d.eq(sorted(counts), list(range(n)), "users")
    hist = Counter(counts.values())
    for k in range(1, 9):
        p = pmf(k)
        d.check(not surprising(hist[k], n, p), f"{hist[k]} of {n} users with {k} impressions, {n * p:.1f} expected")
    done, tail = 0, 1.0
    for top in (3, 5, 10, 20, 50, 100, 200, 500):
        tail -= math.fsum(pmf(k) for k in range(done + 1, top + 1))
        done = top
        seen = sum(v for k, v in hist.items() if k > top)
        if n * tail > 1e-3:
            d.check(not surprising(seen, n, tail), f"{seen} of {n} users above {top} impressions, {n * tail:.1f} expected")
        elif tail < 1e-9:
            d.check(seen <= 3, f"{seen} of {n} users above {top} impressions, none expected")
    if mean is not None:
        tol = 8 * math.sqrt(n * (var + 1)) + 60
        d.check(abs(len(imps) - n * mean) <= tol, f"{len(imps)} impressions, {n * mean:.1f} expected (tolerance {tol:.1f})")
    # users are exchangeable: no trend of the number of impressions over ids
    half = sum(1 for i in range(n // 2) if counts[i] == 1) - sum(1 for i in range(n - n // 2, n) if counts[i] == 1)
    d.check(abs(half) <= 8 * math.sqrt(n) + 10, f"single-impression users: first half minus second half is {half} of {n}")
    # the order of the impressions is a random shuffle
    total = len(imps)
    equal = sum(1 for a, b in zip(imps, imps[1:]) if a == b)
    expected = sum(c * (c - 1) for c in counts.values()) / total
    d.check(equal <= expected + 10 * math.sqrt(expected + 1) + 20, f"{equal} adjacent impressions of the same user, {expected:.1f} expected")
    # share of the first-half positions among the first-half users' impressions: hypergeometric
    m = sum(counts[i] for i in range(n // 2))
    top = sum(1 for x in imps[: total // 2] if x < n // 2)
    want = m * (total // 2) / total
    d.check(abs(top - want) <= 8 * math.sqrt(total) / 2 + 10, f"{top} of the first {total // 2} impressions are of the first {n // 2} users, {want:.1f} expected")
    d.nontrivial()
    d.label(kind)


def pricing(d):
    ids = [d.int(0, 20) for _ in range(d.size(0, 60))]
    cpi = d.pick([0.1, 1.0, 0.25, 3]) if d.bool() else d.log_float(1e-6, 1e4)
    given = list(ids)
    out = FixedPriceGenerator(cpi)(given)
    d.show({"ids": ids, "cost per impression": cpi})
    d.eq(given, ids, "the caller's impressions")
    d.eq([i for i, _ in out], ids, "ids, in order")
    for k, (_, s) in enumerate(out):
        d.close(s, (k + 1) * cpi, f"total spend of impression {k + 1}", rel=1e-9, abs_=0)
    if ids:
        pub = PublisherData.generate_publisher_data(lambda: list(ids), FixedPriceGenerator(cpi), d.pick(["x", "7"]))
        d.eq(pub.max_impressions, len(ids), "impressions of the generated publisher")
        d.close(pub.max_spend, len(ids) * cpi, "spend of the generated publisher", rel=1e-9, abs_=0)
        d.eq(pub.max_reach, len(set(ids)), "reach of the generated publisher")
        k = d.int(0, len(ids))
        d.eq(dict(pub.user_counts_by_impressions(k)), dict(Counter(ids[:k])), f"the first {k} impressions")
        d.eq(pub.impressions_by_spend((k + 0.5) * cpi), k, "impressions bought")
    d.nontrivial(len(ids) > 2)


CHECK = Check(
    "C16",
    [Sub("users", users, 6000, 60000), Sub("distribution", distribution, 240, 4000), Sub("pricing", pricing, 6000, 60000)],
    rule="random parameters of the three impression generators and random impression lists; users and reproducibility checked exactly, frequencies 1 to 8 and tails up to 500 against the documented probability mass function (2000-20000 users per case, Chernoff bound of 1e-13), order against a random shuffle; non-trivial: more than two users or impressions",
    assumptions=["statistical bounds (Chernoff, or 8 standard deviations plus a constant): a correct generator exceeds one with probability below 1e-12 per case"],
)

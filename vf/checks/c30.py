"""C30: Gamma-Poisson fits recover data of their own family."""
import contextlib
import io
import math

from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonModel
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

from vf import gen
from vf.checks.c10 import thinned
from vf.checks.c11 import gp
from vf.runner import Check, Sub


class Truth:
    """An audience of N people with 1 + Gamma-Poisson inventories, shown I of all impressions."""

    def __init__(self, d):
        for _ in range(20):
            self.alpha, self.beta = d.float(0.3, 5), d.float(0.3, 5)
            self.N = int(10 ** d.float(2, 5))
            self.p = d.float(0.1, 0.9)
            self.f = d.pick([2, 3, 5, 10])
            self.imax = self.N * self.draw(d)
            self.I = int(self.imax * self.p)
            self.kplus = [int(round(x)) for x in self.at(self.I, self.f)]
            if self.kplus[-1] >= 1 and self.kplus[0] < self.I:
                return
        d.reject()

    def draw(self, d):
        return 1 + self.alpha * self.beta

    def at(self, x, f):
        out = [self.N * (1 - thinned(0, self.alpha, self.beta, x / self.imax))]
        for k in range(1, f):
            out.append(out[-1] - self.N * thinned(k, self.alpha, self.beta, x / self.imax))
        return out

    def __repr__(self):
        return f"alpha={self.alpha:.3f} beta={self.beta:.3f} N={self.N} I={self.I} ({self.p:.2f} of all) k+={self.kplus}"


def _deviations(d, m, t):
    with contextlib.redirect_stdout(io.StringIO()):
        m._fit()
    rp = m.by_impressions([t.I], t.f)
    got = gen.frozen_kplus(rp)
    d.eq(len(got), t.f, "number of k+ reaches")
    train = max(abs(a - b) for a, b in zip(got, t.kplus)) / t.kplus[0]
    half = t.I // 2
    inter = abs(m.by_impressions([half]).reach() / t.at(half, 1)[0] - 1)
    more = int(t.imax * min(0.95, 1.5 * t.p))
    extra = abs(m.by_impressions([more]).reach() / t.at(more, 1)[0] - 1)
    return train, inter, extra


def _judge(d, make, n, loose, tight, kind=Truth, need=1):
    """Every fit (of at most n) within the loose bounds and at least `need` of the n within the tight ones."""
    truths, devs, found = [], [], 0
    for i in range(n):
        t = kind(d)
        truths.append(t)
        d.show([repr(t) for t in truths])
        dev = _deviations(d, make(t), t)
        devs.append(dev)
        for name, x, bound in zip(("training k+ reaches", "reach at half the impressions", "reach at 1.5 times the impressions"), dev, loose):
            d.check(x <= bound, lambda: f"{name} are off by {x:.4f}, more than {bound}, for {t!r}")
        if all(x <= b for x, b in zip(dev, tight)):
            found += 1
            d.label("tight")
        if found == need:
            break
        missed = len(devs) - found
        d.check(missed <= n - need, lambda: f"{missed} of {n} fits are inaccurate: (training, half, more) deviations {devs}, bounds {tight}; {truths}")
    d.nontrivial(any(t.f > 2 for t in truths))


def given_audience(d):
    _judge(d, lambda t: GammaPoissonModel([ReachPoint([t.I], t.kplus)], max_reach=t.N), 3, (0.3, 0.3, 0.3), (0.004, 0.01, 0.015))


def inflated(d):
    _judge(d, lambda t: KInflatedGammaPoissonModel([ReachPoint([t.I], t.kplus)]), 3, (0.3, 0.3, 0.9), (0.006, 0.01, 0.6))


def free_audience(d):
    _judge(d, lambda t: GammaPoissonModel([ReachPoint([t.I], t.kplus)]), 3, (0.7, 0.7, 2.0), (0.15, 0.15, 0.6))


def _binom(n, k, q):
    return math.exp(math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + k * math.log(q) + (n - k) * math.log1p(-q)) if n >= k else 0.0


class Inflated(Truth):
    """The same with a share of its own of the people who have exactly one (two) impressions."""

    def draw(self, d):
        n = d.pick([1, 2])
        self.a = [d.float(0.05, 0.8 / n) for _ in range(n)]
        base = [gp(k, self.alpha, self.beta) for k in range(1, 400)]
        rest = (1 - sum(self.a)) / sum(base[n:])
        self.pmf = [0.0] + self.a + [rest * x for x in base[n:]]
        return sum(k * x for k, x in enumerate(self.pmf))

    def at(self, x, f):
        q = x / self.imax
        out = [self.N * (1 - sum(x * (1 - q) ** n for n, x in enumerate(self.pmf)))]
        for k in range(1, f):
            out.append(out[-1] - self.N * sum(x * _binom(n, k, q) for n, x in enumerate(self.pmf)))
        return out


def inflated_audience(d):
    _judge(d, lambda t: KInflatedGammaPoissonModel([ReachPoint([t.I], t.kplus)]), 16, (0.4, 0.4, 0.9), (0.006, 0.02, 0.6), Inflated, need=6)


def extrapolation(d):
    """The inventory is at least extrapolation_multiplier times the impressions seen: the curve rises until then."""
    t = Truth(d)
    mult = d.pick([1.5, 3, 10])
    d.show([repr(t), mult])
    inflated = d.bool(0.65)
    if inflated:
        m = KInflatedGammaPoissonModel([ReachPoint([t.I], t.kplus)], extrapolation_multiplier=mult)
    else:
        m = GammaPoissonModel([ReachPoint([t.I], t.kplus)], max_reach=t.N, extrapolation_multiplier=mult)
    with contextlib.redirect_stdout(io.StringIO()):
        m._fit()
    got = gen.frozen_kplus(m.by_impressions([t.I], t.f))
    off = max(abs(a - b) for a, b in zip(got, t.kplus)) / t.kplus[0]
    if not inflated and off > 0.3:
        d.label("no good fit")  # for a given audience there may be none with such an inventory
        return
    d.check(off <= 0.3, lambda: f"training k+ reaches {t.kplus} are off by {off:.3f}: {got}")
    # all impressions bought are delivered as long as there are some: sum of the k+ reaches
    x = int(0.95 * mult * t.I)
    total = sum(gen.frozen_kplus(m.by_impressions([x], 800)))
    d.check(
        total >= 0.99 * x,
        lambda: f"with a multiplier of {mult} the inventory ends before {0.95 * mult:.2f} times the {t.I} impressions seen: of {x} impressions only {total:.0f} reach somebody",
    )
    d.nontrivial(mult > 1 / t.p)
    d.label(f"{type(m).__name__} {mult}")


CHECK = Check(
    "C30",
    [
        Sub("given_audience", given_audience, 40, 700),
        Sub("inflated", inflated, 40, 700),
        Sub("inflated_audience", inflated_audience, 8, 120),
        Sub("extrapolation", extrapolation, 16, 400),
        Sub("free_audience", free_audience, 4, 120),
    ],
    rule="rounded k+ reaches (2-10 frequencies) of random Gamma-Poisson audiences (100-100000 people, 10%-90% of their impressions shown), fitted and queried at the training point, at half and at 1.5 times its impressions; every fit within a loose bound and at least one of up to three (inflated audiences: six of up to sixteen) within a tight one; non-trivial: more than two frequencies",
    assumptions=["the fits are local searches: single fits may be off by up to 0.4 (0.9 beyond the training point; 0.7 and 2.0 when the audience size is fitted as well), the tight bound is asked of one of up to three (six of sixteen) only"],
)

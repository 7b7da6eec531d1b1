"""C09: the one-point models (Goerg; exponential Poisson) follow their closed forms."""
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonModel
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

from vf import gen
from vf.runner import Check, Sub


def _point(d, lo_extra=1):
    scale = d.pick([10, 1000, 10 ** 6, 10 ** 9])
    reach = d.int(1, scale)
    extra = d.size(lo_extra, scale * 5)
    imps = reach + extra
    spend = d.pick([None, 1.0]) if d.bool(0.4) else d.log_float(1e-4, 1e7)
    ks = [reach]
    for _ in range(d.size(0, 4)):
        ks.append(d.int(0, ks[-1]))
    return imps, reach, spend, ks


def _make(imps, ks, spend, cls, **kw):
    return cls([ReachPoint([imps], ks, [spend]) if spend else ReachPoint([imps], ks)], **kw)


def goerg(d):
    imps, reach, spend, ks = _point(d)
    m = _make(imps, ks, spend, GoergModel)
    rho = imps * reach / (imps - reach)
    d.show({"impressions": imps, "k+": ks, "spend": spend})
    # 1 - reach / impressions may be computed with a rounding error in its last digit
    tol = 1e-9 + 1e-14 * imps / (imps - reach)
    d.close(m.max_reach, rho, "maximum reach", rel=tol)
    d.close(m.by_impressions([imps]).reach(), reach, "reach at the training point", rel=tol)
    if spend:
        d.close(m.by_spend([spend]).reach(), reach, "reach at the training spend", rel=tol)
        d.close(m.impressions_for_spend(spend), imps, "impressions of the training spend", rel=1e-9)
        d.eq(m.by_spend([spend]).max_frequency, 1, "frequencies reported by default")
    d.eq(m.by_impressions([imps]).max_frequency, 1, "frequencies reported by default")
    mf = d.pick([1, 2, 5, 12]) if d.bool(0.97) else d.int(30, 150)
    prev = None
    xs = sorted({0, 1, imps, imps * 2} | {d.int(0, 3 * imps) for _ in range(4)})
    if d.bool(0.3):
        xs.append(imps * 10.0 ** d.int(1, 6))
    for x in xs:
        rp = m.by_impressions([x], mf)
        got = gen.frozen_kplus(rp)
        want = [rho * (x / (x + rho)) ** k for k in range(1, mf + 1)]
        d.eq(len(got), mf, "number of k+ reaches")
        for k in range(mf):
            d.close(got[k], want[k], f"{k + 1}+ reach at {x} impressions", rel=mf * tol, abs_=1e-9)
        d.check(got[0] <= x * (1 + tol) and got[0] <= rho * (1 + tol), f"reach {got[0]} of {x} impressions")
        d.eq(list(rp.impressions), [x], "impressions of the point")
        if spend:
            d.close(rp.spends[0], x * spend / imps, "spend of the point", rel=1e-9)
            by_spend = m.by_spend([x * spend / imps], mf)
            for k in range(mf):
                d.close(by_spend.reach(k + 1), want[k], f"{k + 1}+ reach by spend", rel=1e-7 + mf * tol, abs_=1e-9)
        else:
            d.eq(rp.spends, None, "spend of the point without a price")
        if prev:
            d.check(all(b >= a - 1e-9 * abs(a) for a, b in zip(prev, got)), "reach fell with more impressions")
        prev = got
    d.nontrivial(mf > 1 and reach > 1)


def refusals(d):
    cls = d.pick([GoergModel, KInflatedGammaPoissonModel])
    kind = d.raw(5)
    R = d.int(1, 1000)
    d.show({"model": cls.__name__, "kind": kind, "reach": R})
    if kind == 0:
        bad = d.pick([R, d.int(0, R)]) if cls is GoergModel else d.int(0, R - 1)
        d.raises(ValueError, lambda: cls([ReachPoint([bad], [R])]), f"{bad} impressions, {R} reached")
    elif kind == 1:
        d.raises(ValueError, lambda: cls([ReachPoint([0], [0])]), "no impressions")
    elif kind == 2:
        p = ReachPoint([R + 5], [R], [1.0])
        d.raises(ValueError, lambda: cls([p, p]), "two points")
        if cls is GoergModel:
            d.raises(ValueError, lambda: cls([]), "no points")
    elif kind == 3:
        m = cls([ReachPoint([R + 5], [R], [1.0])])
        m._fit()
        for v in ([], [1, 2], [1, 2, 3]):
            d.raises(ValueError, lambda: m.by_impressions(v), f"by_impressions({v})")
            d.raises(ValueError, lambda: m.by_spend(v), f"by_spend({v})")
    else:
        m = cls([ReachPoint([R + 5], [R])])
        m._fit()
        d.raises(ValueError, lambda: m.by_spend([1.0]), "by_spend without a price")
        d.raises(ValueError, lambda: m.impressions_for_spend(1.0), "impressions_for_spend without a price")
    d.nontrivial()


def exponential_poisson(d):
    """kGP fitted to a single 1+ reach: an exponential Poisson curve through the point."""
    reach = d.int(5, 10 ** d.int(1, 6))
    ratio = d.float(1.05, 12)
    imps = int(reach * ratio) + 1
    spend = d.log_float(0.01, 1e5)
    m = KInflatedGammaPoissonModel([ReachPoint([imps], [reach], [spend])])
    m._fit()
    N = m.max_reach
    d.show({"impressions": imps, "reach": reach, "N": N})
    d.check(N >= reach * (1 - 1e-9), f"audience {N} below the reach {reach}")
    d.close(m.by_impressions([imps]).reach(), reach, "reach at the training point", rel=1e-6)
    d.close(m.by_spend([spend]).reach(), reach, "reach at the training spend", rel=1e-6)
    # the member of the family with audience N that passes through the point
    beta = N * (imps - reach) / (imps * reach - N * (imps - reach))
    if not 0 < beta < 35:
        d.label("beta out of the checked range")
        return
    top = (beta + 1) * N
    prev = 0.0
    for x in sorted({0.0, top, top * 3} | {d.float(0, 1.2) * top for _ in range(6)}):
        want = N if x >= top else N * x * (beta + 1) / (N + beta * (N + x))
        got = m.by_impressions([x]).reach()
        d.close(got, want, f"reach at {x} of {top} impressions", rel=1e-6, abs_=1e-6 * N)
        d.check(got >= prev - 1e-9 * N, "reach fell with more impressions")
        prev = got
    d.nontrivial()


CHECK = Check(
    "C09",
    [
        Sub("goerg", goerg, 8000, 80000),
        Sub("refusals", refusals, 600, 4000),
        Sub("exponential_poisson", exponential_poisson, 1600, 16000),
    ],
    rule="random training points (reach 1 to 1e9, impressions above it, with and without price, extra frequencies present) and queries from 0 to 1e6 times the campaign, compared with the closed forms; non-trivial: several frequencies and reach above one (goerg), beta in (0, 35) (exponential_poisson)",
    assumptions=["closed forms: rho = I R/(I-R), k+ = rho (x/(x+rho))^k; N x (b+1)/(N + b (N + x)) for the exponential Poisson model, whose frequency truncation at 1000 is negligible for b < 35"],
)

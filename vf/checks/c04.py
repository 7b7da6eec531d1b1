"""C04: ReachPoint conversions between k+ reach, frequencies and histograms."""
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

from vf import gen
from vf.runner import Check, Sub


def conversions(d):
    mf = gen.count(d, 1, 12, 120, even=True)
    nonint = d.bool(0.3)
    noised = d.bool(0.15)
    if nonint:
        steps = [d.dyadic(0, 50) for _ in range(mf)]
    else:
        # noised reaches may be negative or rise with k
        steps = [d.pick([0, 1, 2, 7, 1000, -1, -5] if noised else [0, 1, 2, 7, 1000]) for _ in range(mf)]
    kp = [sum(steps[i:]) for i in range(mf)]
    universe = kp[0] + d.pick([0, 1, 10, 1000])
    npub = gen.count(d, 1, 4, 40, even=True)
    imps = [d.int(0, 1000) for _ in range(npub)]
    spends = d.pick([None, [d.dyadic(0, 100) for _ in range(npub)]])
    has_u = d.bool(0.7)
    src = d.pick([list, tuple])(kp)
    rp = ReachPoint(imps, src, spends, universe if has_u else None)
    d.show({"kplus": kp, "impressions": imps, "spends": spends, "universe": universe if has_u else None})
    d.eq(rp.max_frequency, mf, "max_frequency")
    d.eq(gen.frozen_kplus(rp), kp, "k+ reaches")
    d.eq(rp.reach(), kp[0], "default reach")
    d.eq(list(rp.impressions), imps, "impressions")
    d.eq(list(rp.spends) if rp.spends is not None else None, spends, "spends")
    for k in range(1, mf):
        d.eq(rp.frequency(k), kp[k - 1] - kp[k], f"frequency({k})")
    if mf > 1:
        d.eq(rp.frequency(), kp[0] - kp[1], "default frequency")
    d.eq(list(rp.frequencies), steps[:-1], "frequencies")
    d.eq(list(rp.frequencies_with_kplus_bucket), steps, "frequencies_with_kplus_bucket")
    d.eq(list(rp.frequencies_with_kplus_bucket), steps, "frequencies_with_kplus_bucket, asked again")
    d.eq(list(rp.frequencies), steps[:-1], "frequencies, asked again")
    d.eq(sum(rp.frequencies_with_kplus_bucket), kp[0], "sum of the frequency buckets")
    for k in [0, -1, mf + 1, mf + 5]:
        d.raises(ValueError, lambda: rp.reach(k), f"reach({k})")
    for k in [0, -1, mf, mf + 1]:
        d.raises(ValueError, lambda: rp.frequency(k), f"frequency({k})")
    if has_u:
        d.eq(rp.universe_size, universe, "universe_size")
        h = list(rp.zero_included_histogram)
        d.eq(h, [universe - kp[0]] + steps, "zero_included_histogram")
        d.eq(sum(h), universe, "the histogram covers the universe")
    else:
        d.raises(ValueError, lambda: rp.universe_size, "universe_size")
        d.raises(ValueError, lambda: rp.zero_included_histogram, "zero_included_histogram")
    if spends is not None:
        d.raises(ValueError, lambda: ReachPoint(imps + [1], kp, spends), "spends of another length")
    freqs = list(steps)
    d.eq(list(ReachPoint.frequencies_to_kplus_reaches(freqs)), kp, "frequencies_to_kplus_reaches")
    d.eq(freqs, steps, "the argument of frequencies_to_kplus_reaches was changed")
    d.nontrivial(mf > 2 and sum(1 for s in steps if s) >= 2)


def user_counts(d):
    n = gen.count(d, 0, 40, 600)
    counts = {d.int(0, 10 ** 6): d.weighted([(6, 1), (3, 2), (2, 5), (1, 40)]) + d.int(0, 2) for _ in range(n)}
    mf = gen.count(d, 1, 12, 60, even=True)
    orig = dict(counts)
    d.show({"counts": counts, "max_frequency": mf})
    f = list(ReachPoint.user_counts_to_frequencies(counts, mf))
    want_f = [sum(1 for c in orig.values() if c == k) for k in range(1, mf)] + [sum(1 for c in orig.values() if c >= mf)]
    d.eq(f, want_f, "user_counts_to_frequencies")
    kp = list(ReachPoint.user_counts_to_kplus_reaches(counts, mf))
    d.eq(kp, gen.kplus(orig, mf), "user_counts_to_kplus_reaches")
    d.eq(list(ReachPoint.frequencies_to_kplus_reaches(list(f))), kp, "frequencies -> k+ agrees with counts -> k+")
    rp = ReachPoint([sum(orig.values())], kp, universe_size=n + 3)
    d.eq(list(rp.frequencies_with_kplus_bucket), want_f, "k+ -> frequencies is the inverse")
    d.eq(counts, orig, "the counts were changed")
    d.nontrivial(n > 0 and any(c > mf for c in orig.values()) and mf > 1)


CHECK = Check(
    "C04",
    [Sub("conversions", conversions, 18000, 144000), Sub("user_counts", user_counts, 12000, 96000)],
    rule="random non-increasing k+ vectors (integers or dyadic fractions, so differences are exact) and random user counts with capped and uncapped frequencies; non-trivial: at least three levels with two non-zero buckets (conversions), some user above the frequency cap (user_counts)",
)

"""C22: simulated reach is the cleaned-up noised estimate of the right data."""
import numpy as np

from vf import gen, halo
from vf.runner import Check, Sub


def _sketch_counts(w, q):
    """What the sketches may contain: events within the spend AND the campaign spend."""
    return gen.merged([gen.counts_by_spend(e, min(s, c)) for e, s, c in zip(w.logs, q, w.campaign)])


def _common(d, w, q, mf, rp):
    imps = [sum(gen.counts_by_spend(e, s).values()) for e, s in zip(w.logs, q)]
    d.eq(list(rp.impressions), imps, "impressions of the simulated point")
    d.eq(list(rp.spends), list(q), "spends of the simulated point")
    d.eq(rp.universe_size, w.universe, "universe of the simulated point")
    d.eq(rp.max_frequency, mf, "max_frequency of the simulated point")
    ks = gen.frozen_kplus(rp)
    for a, b in zip(ks, ks[1:]):
        d.check(b <= a, f"k+ reaches increase: {ks}")
    d.check(all(x >= 0 for x in ks), f"negative reach: {ks}")
    d.check(all(float(x) == int(x) for x in ks), f"fractional people: {ks}")
    if sum(imps) >= 2:
        d.check(ks[0] < sum(imps), f"reach {ks[0]} is not below the {sum(imps)} impressions")
    return imps, ks


def noised(d):
    w = halo.world(d, max_pubs=4, hi=25, many_pubs=16, many=400)
    eps = d.pick([0.5, 0.1, 2.0, 0.01])
    mf = d.pick([1, 2, 3, 10, 25])
    q = halo.spends_vector(d, w)
    sp = halo.split(d)
    log = halo.Log()
    rp = w.halo.simulated_reach_by_spend(q, halo.budget(d, eps), sp, mf)
    d.show({"logs": w.logs, "campaign": w.campaign, "spends": q, "eps": eps, "max_frequency": mf, "result": gen.frozen_kplus(rp)})
    imps, ks = _common(d, w, q, mf, rp)
    # exactly one estimate, of exactly the users within spend and campaign
    d.eq(len(log.estimates), 1, "number of estimates")
    est = log.estimates[0]
    d.eq({k: v for k, v in est["counts"].items() if v}, _sketch_counts(w, q), "contents of the combined sketch")
    d.eq(est["max_freq"], mf, "frequency of the estimate")
    want = [max(0, round(x)) for x in est["result"]]
    for i in range(1, len(want)):
        want[i] = min(want[i], want[i - 1])
    if sum(imps) <= want[0]:
        d.label("capped by impressions")
        want = [max(sum(imps) - 1, 1)] + [0] * (mf - 1)
    d.eq([int(x) for x in ks], [int(x) for x in want], f"k+ reaches from the noised estimate {est['result']}")
    # all sketches are built with the system's parameters
    for s in log.sketches:
        d.eq(
            (s["length"], s["decay"], s["seed"]),
            (w.sketch.sketch_size, w.sketch.decay_rate, w.sketch.random_seed),
            "sketch parameters",
        )
    d.nontrivial(len(est["counts"]) > 1 and want[0] > 0)


def accurate(d):
    """With (practically) no noise the estimate is the brute force count."""
    w = halo.world(d, max_pubs=4, hi=30, ids=d.pick([3, 8]), many_pubs=16)
    mf = d.pick([1, 2, 4, 10])
    q = halo.spends_vector(d, w)
    rp = w.halo.simulated_reach_by_spend(q, halo.budget(d, 1e4), halo.split(d), mf)
    imps, ks = _common(d, w, q, mf, rp)
    counts = _sketch_counts(w, q)
    truth = gen.kplus(counts, mf)
    d.show({"logs": w.logs, "campaign": w.campaign, "spends": q, "truth": truth, "result": ks})
    if sum(imps) > truth[0]:
        d.eq([int(x) for x in ks], truth, "k+ reaches without noise")
        d.nontrivial(truth[0] > 1 and mf > 1)
    else:
        d.label("capped by impressions")


def public(d):
    """Campaign spends, maximum spends, and ground truth queries."""
    w = halo.world(d, max_pubs=5, many_pubs=20)
    d.show({"logs": w.logs, "fractions": w.fractions})
    d.eq(w.halo.publisher_count, w.p, "publisher_count")
    for got, want in zip(w.halo.campaign_spends, w.campaign):
        d.close(got, want, "campaign spend", rel=1e-12, abs_=0)
    d.eq(len(w.halo.campaign_spends), w.p, "number of campaign spends")
    d.eq(list(w.halo.max_spends), w.max_spends, "max spends")
    q = halo.spends_vector(d, w)
    mf = d.pick([1, 2, 5])
    rp = w.halo.true_reach_by_spend(q, mf)
    counts = gen.merged([gen.counts_by_spend(e, s) for e, s in zip(w.logs, q)])
    d.eq(gen.frozen_kplus(rp), gen.kplus(counts, mf), "true reach (not capped by the campaign)")
    d.eq(list(rp.spends), list(q), "spends")
    d.nontrivial(w.p > 1 and len(counts) > 1)


def reproducible(d):
    """The same seed gives the same answers, query by query."""
    from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
    from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyTracker

    w = halo.world(d, max_pubs=3)
    qs = [(halo.spends_vector(d, w), halo.budget(d, d.pick([0.3, 1.0])), d.pick([1, 3])) for _ in range(d.int(1, 4))]
    runs = []
    for _ in range(2):
        np.random.seed(d.raw(1000))  # unrelated global randomness must not matter
        h = HaloSimulator(w.data_set, w.params._replace(generator=np.random.default_rng(w.seed)), PrivacyTracker())
        runs.append([gen.frozen_kplus(h.simulated_reach_by_spend(q, b, 0.5, mf)) for q, b, mf in qs])
    d.show({"queries": qs, "answers": runs[0]})
    d.eq([[int(x) for x in r] for r in runs[1]], [[int(x) for x in r] for r in runs[0]], "answers with the same seed")
    # different queries are noised independently
    d.nontrivial(len(qs) > 1)


def fresh_noise(d):
    """Repeating a request draws new noise each time (averages do not reveal one draw)."""
    w = halo.world(d, max_pubs=2, lo=10, hi=30, ids=50)
    q = [m for m in w.max_spends]
    log = halo.Log()
    for _ in range(12):
        w.halo.simulated_reach_by_spend(q, halo.budget(d, 0.05), 0.5, 1)
    results = [e["result"][0] for e in log.estimates]
    d.show({"noised reaches": results})
    d.check(len(set(results)) > 1, f"12 noised reaches at epsilon 0.025 are all equal: {results}")
    d.nontrivial()


CHECK = Check(
    "C22",
    [
        Sub("noised", noised, 2500, 50000),
        Sub("accurate", accurate, 1500, 30000),
        Sub("public", public, 800, 10000),
        Sub("reproducible", reproducible, 500, 8000),
        Sub("fresh_noise", fresh_noise, 120, 1500),
    ],
    rule="generated data sets and campaigns queried at spends inside, at and beyond the campaign spend; the sketch contents seen by the (stand-in) estimator are compared with a brute force count and the published point with the cleaned-up noised estimate; non-trivial: more than one user in the sketch and a positive estimate (noised), true reach above one and several frequencies (accurate), several publishers (public), several queries (reproducible)",
    assumptions=[
        "exact stand-in sketches instead of Liquid Legions; noise is two-sided geometric",
        "fresh_noise: 24 independent geometric draws at epsilon 0.025 all cancel with probability below 1e-17",
    ],
)

"""C27: ground truth curves and the planner's truth are those of the data; the planner serves the fitted model."""
import numpy as np

from vf import gen, halo, trials
from vf.runner import Check, Sub

from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.planner_simulator import PlannerSimulator
from wfa_planning_evaluation_framework.simulator.publisher import Publisher
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget


def curve(d):
    p = gen.count(d, 1, 4, 12, even=True)
    ids = d.pick([3, 10, 60])
    logs = [gen.events(d, hi=30, ids=ids, many=600) for _ in range(p)]
    ds = DataSet([PublisherData(list(e), f"p{i}") for i, e in enumerate(logs)], "ds")
    curves = [GroundTruthReachCurveModel(ds, i) for i in range(p)]
    d.show({"logs": logs})
    for _ in range(d.int(1, 5)):
        i = d.raw(p)
        c, e = curves[i], logs[i]
        f = gen.count(d, 1, 6, 40, even=True)
        s = gen.query_spends(d, e, 1)[0] if d.bool(0.95) else -d.log_float(0.01, 5)
        counts = gen.counts_by_spend(e, s)
        rp = c.by_spend([s], f)
        # users of other publishers' free events are reached whatever this publisher spends
        free = gen.merged([gen.counts_by_spend(x, 0) for j, x in enumerate(logs) if j != i])
        if not free:
            d.eq([rp.reach(k) for k in range(1, f + 1)], gen.kplus(counts, f), f"k+ reach at spend {s} of publisher {i}")
        d.eq(c.impressions_for_spend(s), sum(counts.values()), "impressions for a spend")
        own = lambda v: list(v)[i if len(v) == p else 0]
        d.eq(own(rp.impressions), sum(counts.values()), f"impressions of the reach point at spend {s}")
        if rp.spends is not None:
            d.eq(own(rp.spends), s, "spend of the reach point")
        n = d.int(0, len(e) + 3)
        rp = c.by_impressions([n], f)
        srt = sorted(x for _, x in e)
        cut = srt[min(n, len(e)) - 1] if n else None
        if n == 0:
            want = {}
        elif n >= len(e) or srt[n] != cut:
            want = gen.counts_by_spend(e, cut)
        else:
            want = None  # several choices among events of equal cost
        got = [rp.reach(k) for k in range(1, f + 1)]
        d.eq(own(rp.impressions), n, "impressions of the reach point")
        if want is not None:
            d.eq(got, gen.kplus(want, f), f"k+ reach at {n} impressions of publisher {i}")
        else:
            d.check(sum(got) <= n and got[0] >= 1, f"k+ reaches {got} of {n} impressions")
        d.check(got == sorted(got, reverse=True), f"k+ reaches {got} rise")
    for i, c in enumerate(curves):
        d.eq(c.max_reach, len({u for u, _ in logs[i]}), "maximum reach")
        bad = d.pick([[], [1, 2], [0] * 3])
        d.raises(ValueError, lambda: c.by_impressions(bad, 1), "impressions of another length")
        d.raises(ValueError, lambda: c.by_spend([float(x) for x in bad], 1), "spends of another length")
    d.nontrivial(p > 1)


def planner(d):
    w = halo.world(d, max_pubs=3, min_pubs=1, positive=True)
    kw = {"scale": d.pick([1.0, 0.5])}
    strategy = M3Strategy(trials.Curve, kw, trials.Surface, {"damp": d.pick([0.5, 2.0])})
    ps = PlannerSimulator(w.halo, strategy, w.params, w.tracker)
    d.show({"logs": w.logs, "fractions": w.fractions})
    del trials.FITTED[:]
    ps.fit_model(PrivacyBudget(d.pick([1.0, 100.0]), 1e-7))
    model = trials.FITTED[-1]
    used = halo.ledger(w)
    d.check(used[0] > 0, "fitting used no privacy budget")
    for _ in range(3):
        s = halo.spends_vector(d, w)
        f = d.int(1, 5)
        got = trials.kp(ps.true_reach_by_spend(list(s), f))
        d.eq(got, gen.kplus(gen.merged([gen.counts_by_spend(e, x) for e, x in zip(w.logs, s)]), f), f"true reach at {s}")
        d.eq(trials.kp(ps.modeled_reach_by_spend(list(s), f)), trials.kp(model.by_spend(list(s), f)), f"modelled reach at {s}")
    d.eq(trials.kp(ps.modeled_reach_by_spend(list(s))), trials.kp(model.by_spend(list(s), 1)), "modelled reach by default")
    merged = gen.merged([gen.counts_by_spend(e, x) for e, x in zip(w.logs, s)])
    d.eq(trials.kp(ps.true_reach_by_spend(list(s))), gen.kplus(merged, 1), f"true reach by default at {s}")
    # what each publisher knows about its own campaign
    for i, log in enumerate(w.logs):
        pub = Publisher(PublisherData(list(log), f"p{i}"), i, w.params, w.tracker)
        d.eq(pub.max_spend, max(x for _, x in log), f"publisher {i}'s maximum spend")
        d.eq(pub.campaign_spend, w.fractions[i] * pub.max_spend, f"publisher {i}'s campaign spend")
        for x in [s[i]] + gen.query_spends(d, log, 1):
            counts = gen.counts_by_spend(w.logs[i], x)
            f = d.int(1, 5)
            got = pub.true_reach_by_spend(x, f)
            d.eq(trials.kp(got), gen.kplus(counts, f), f"publisher {i}'s true reach at {x}")
            d.eq(list(got.impressions), [sum(counts.values())], f"publisher {i}'s impressions at {x}")
            d.eq(list(got.spends), [x], f"publisher {i}'s spend at {x}")
            d.eq(trials.kp(pub.true_reach_by_spend(x)), gen.kplus(counts, 1), f"publisher {i}'s true reach by default at {x}")
    d.eq(halo.ledger(w), used, "privacy used by queries of the model and of the truth")
    # a second fit replaces the model
    ps.fit_model(PrivacyBudget(2.0, 0.0))
    newer = trials.FITTED[-1]
    d.check(newer is not model, "the second fit did not fit a model")
    d.eq(trials.kp(ps.modeled_reach_by_spend(list(s), f)), trials.kp(newer.by_spend(list(s), f)), "modelled reach after a second fit")
    d.nontrivial(w.p > 1)


CHECK = Check(
    "C27",
    [Sub("curve", curve, 6000, 48000), Sub("planner", planner, 1000, 8000)],
    rule="data sets of 1-4 publishers queried at spends on, next to and between event costs and at all impression counts; planners over generated data sets, fitted twice; non-trivial: several publishers",
    assumptions=["ties: any choice among events of equal cost"],
)

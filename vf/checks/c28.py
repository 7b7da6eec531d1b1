"""C28: modelling strategies feed the models the noisy measurements they are meant to, within the budget."""
from vf import gen, halo, trials
from vf.runner import Check, Sub

from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy


class Spy(HaloSimulator):
    """Records every request."""

    def simulated_reach_by_spend(self, spends, budget, *args, **kwargs):
        r = super().simulated_reach_by_spend(spends, budget, *args, **kwargs)
        self.requests.append((tuple(float(s) for s in spends), budget, trials.kp(r), list(r.impressions), list(r.spends)))
        return r


def _world(d, **k):
    w = halo.world(d, positive=True, **k)
    w.halo = Spy(w.data_set, w.params, w.tracker)
    w.halo.requests = []
    return w


def m3(d):
    w = _world(d, max_pubs=5, hi=12, many_pubs=12)
    p = w.p
    b = PrivacyBudget(d.pick([1.0, 0.25, 40.0]), d.pick([0.0, 1e-7, 1 / 64]))
    truth = d.bool(0.25)
    ckw = {} if d.bool() else {"scale": 0.5}
    skw = {} if d.bool() else {"damp": 2.0}
    kw = {"use_ground_truth_for_reach_curves": True} if truth else ({} if d.bool() else {"use_ground_truth_for_reach_curves": False})
    d.show({"logs": w.logs, "fractions": w.fractions, "budget": tuple(b), "ground_truth": truth})
    strategy = M3Strategy(trials.Curve, dict(ckw), trials.Surface, dict(skw), **kw)
    del trials.FITTED[:]
    model = strategy.fit(w.halo, w.params, b)
    camp = [float(c) for c in w.campaign]
    total = tuple(camp)
    single = [tuple(camp[i] if j == i else 0.0 for j in range(p)) for i in range(p)]
    others = [tuple(0.0 if j == i else camp[j] for j in range(p)) for i in range(p)] if p > 2 else []
    got = [r[0] for r in w.halo.requests]
    d.eq(sorted(got), sorted([total] + single + others), "spends of the requests")
    for s, bb, _, _, _ in w.halo.requests:
        d.close(bb.epsilon, b.epsilon / (2 * p + 1), "epsilon of a request", rel=1e-9)
        d.close(bb.delta, b.delta / (2 * p + 1), "delta of a request", rel=1e-9, abs_=0)
    c = w.tracker.privacy_consumption
    d.leq(c.epsilon, b.epsilon, "epsilon used")
    d.leq(c.delta, b.delta, "delta used")
    curves = [m for m in trials.FITTED if isinstance(m, trials.Curve)]
    surfaces = [m for m in trials.FITTED if isinstance(m, trials.Surface)]
    if p > 1:
        d.eq(len(surfaces), 1, "surfaces fitted")
        d.check(model is surfaces[0], "the model returned is not the fitted surface")
        d.eq(model.fitted, 1, "fits of the surface")
        d.eq(model.damp, skw.get("damp", 0.5), "parameter of the surface")
        d.eq(len(model.curves), p, "curves given to the surface")
    used = model.curves if p > 1 else [model]
    if truth:
        d.eq(curves, [], "models fitted to data in spite of ground truth")
        for i, cv in enumerate(used):
            for s in gen.query_spends(d, w.logs[i], 2):
                d.eq(trials.kp(cv.by_spend([s], 3)), gen.kplus(gen.counts_by_spend(w.logs[i], s), 3), f"ground truth curve {i} at {s}")
    else:
        d.eq(len(curves), p, "curves fitted")
        for i, cv in enumerate(used):
            d.eq(cv.fitted, 1, f"fits of curve {i}")
            d.eq(cv.scale, ckw.get("scale", 1.0), "parameter of a curve")
            d.eq(len(cv.given), 1, "training points of a curve")
            t = cv.given[0]
            cand = [r for r in w.halo.requests if r[0] == single[i]]
            if p == 1:
                cand = cand[-1:]
            match = [r for r in cand if trials.kp(t) == r[2]]
            d.check(match, f"training reach {trials.kp(t)} of curve {i} is none of the measurements {[r[2] for r in cand]}")
            r = match[0]
            d.eq(list(t.impressions), [r[3][i]], f"training impressions of curve {i}")
            d.eq(list(t.spends), [r[4][i]], f"training spends of curve {i}")
            d.eq(float(t.spends[0]), camp[i], f"training spend of curve {i}")
            d.eq(t.max_frequency, 10, "frequencies of the training point of a curve")
    if p > 1:
        pts = sorted((tuple(float(x) for x in q.spends), trials.kp(q), list(q.impressions)) for q in model.points)
        d.eq([q[0] for q in pts], sorted(others + [total]), "spends of the training points of the surface")
        for s, k, imp in pts:
            cand = [r for r in w.halo.requests if r[0] == s]
            d.check(any(r[2][: len(k)] == k and r[3] == imp for r in cand), f"training point {s}: reach {k} is not the measured one {[r[2] for r in cand]}")
    d.nontrivial(p > 2)
    d.label(f"{p} publishers" + (", truth" if truth else ""))


def single(d):
    w = _world(d, max_pubs=3)
    b = PrivacyBudget(d.pick([1.0, 0.25, 40.0]), d.pick([0.0, 1e-7]))
    ckw = {} if d.bool() else {"scale": 0.5}
    strategy = SinglePublisherStrategy(trials.Curve, dict(ckw), None, {})
    del trials.FITTED[:]
    d.show({"logs": w.logs, "fractions": w.fractions, "budget": tuple(b)})
    if w.p > 1:
        d.raises(ValueError, lambda: strategy.fit(w.halo, w.params, b), "several publishers")
        d.eq(halo.ledger(w)[2], 0, "privacy used by a refused fit")
        d.eq(len(trials.FITTED), 0, "models fitted")
        return
    model = strategy.fit(w.halo, w.params, b)
    d.eq(len(w.halo.requests), 1, "requests")
    s, bb, k, imp, sp = w.halo.requests[0]
    d.eq(list(s), [float(w.campaign[0])], "spend of the request")
    d.eq((bb.epsilon, bb.delta), (b.epsilon, b.delta), "budget of the request")
    c = w.tracker.privacy_consumption
    d.leq(c.epsilon, b.epsilon, "epsilon used")
    d.check(model is trials.FITTED[-1] and len(trials.FITTED) == 1 and model.fitted == 1, "the model returned is not the one that was fitted")
    d.eq(model.scale, ckw.get("scale", 1.0), "parameter of the curve")
    d.eq(len(model.given), 1, "training points")
    t = model.given[0]
    d.eq(trials.kp(t), k, "training reach")
    d.eq((list(t.impressions), list(t.spends)), (imp, sp), "training impressions and spends")
    d.eq(t.max_frequency, 20, "frequencies of the training point")
    d.nontrivial()


CHECK = Check(
    "C28",
    [Sub("m3", m3, 1800, 15000), Sub("single", single, 600, 4800)],
    rule="halo instances over generated data sets with 1-5 publishers, campaign fractions including 0, budgets, model parameters, ground truth on and off; non-trivial: more than two publishers (m3), one publisher (single)",
    assumptions=["the models record what they are given", "exact stand-in sketches"],
)

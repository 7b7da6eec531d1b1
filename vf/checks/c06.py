"""C06: every noised release is accounted for, within the budget it was given."""
import numpy as np

from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface
from wfa_planning_evaluation_framework.models.reach_surface import ReachSurface
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.planner_simulator import PlannerSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy

from vf import halo
from vf.runner import Check, Sub


class FakeSurface(ReachSurface):
    """A multi publisher model that needs no solver."""

    def __init__(self, reach_curves, reach_points):
        self._reach_curves = reach_curves
        super().__init__(data=reach_points)

    def _fit(self):
        pass

    def by_impressions(self, impressions, max_frequency=1):
        raise NotImplementedError()


def _strategy(d, w):
    kind = d.raw(4)
    single = w.p == 1 and d.bool()
    if single:
        return "single", SinglePublisherStrategy(GoergModel, {}, None, {})
    surface = PairwiseUnionReachSurface if kind == 3 else FakeSurface
    truth = kind == 2
    return "m3", M3Strategy(GoergModel, {}, surface, {}, use_ground_truth_for_reach_curves=truth)


def history(d):
    w = halo.world(d, max_pubs=5, positive=True, lo=4, sketch=(1, 400), many_pubs=9)
    other = PrivacyTracker()
    trace = []
    total_e = total_d = 0.0
    ops = d.size(1, 5)
    kinds = set()
    d.eq(halo.ledger(w), (0.0, 0.0, 0), "ledger before any release")
    for _ in range(ops):
        before = halo.ledger(w)
        b = halo.budget(d)
        op = d.raw(8)
        log = halo.Log()
        if op <= 2:
            mf, sp = d.pick([1, 2, 5]), halo.split(d)
            q = halo.spends_vector(d, w)
            w.halo.simulated_reach_by_spend(q, b, sp, mf)
            what = ("reach", q, tuple(b), sp, mf)
            want = sorted([b.epsilon * sp, b.epsilon * (1 - sp)] if mf > 1 else [b.epsilon * sp])
            exact = True
        elif op <= 4:
            sp = halo.split(d)
            q = halo.spends_vector(d, w)
            try:
                r = w.halo.simulated_venn_diagram_reach_by_spend(q, b, sp)
            except RuntimeError as e:
                if "active registers" not in str(e):
                    raise
                continue
            what = ("venn", q, tuple(b), sp)
            want = sorted([b.epsilon * sp, b.epsilon * (1 - sp)]) if r else []
            exact = bool(r)
            if r:  # every region and the total are noised, also regions without users
                d.check(len(log.calls) >= len(r) + 1, f"{len(log.calls)} numbers were noised, but {len(r)} regions and a total published")
            if not r:
                d.check(not any(q), f"no Venn diagram for the spends {q}")
        elif op == 5:
            q = halo.spends_vector(d, w)
            w.halo.true_reach_by_spend(q, 3)
            what, want, exact = ("truth", q), [], None
        else:
            name, s = _strategy(d, w)
            planner = PlannerSimulator(w.halo, s, w.params, w.tracker)
            what, want, exact = (name, tuple(b)), None, False
            try:
                planner.fit_model(b)
            except (ValueError, TypeError, ArithmeticError, ZeroDivisionError):
                # models may be impossible to fit to very small noised data; what
                # was released until then is accounted for all the same
                what += ("not fittable",)
        trace.append(what)
        kinds.add(what[0])
        d.show({"logs": w.logs, "fractions": w.fractions, "history": trace})
        after = halo.ledger(w)
        used = (after[0] - before[0], after[1] - before[1], after[2] - before[2])
        noise = log.noise
        # 1. the ledger covers the noise that was really added
        d.leq(sum(noise), used[0], f"epsilon of the noise added by {what} vs recorded")
        d.check(used[2] >= len(noise), f"{len(noise)} mechanisms applied by {what}, {used[2]} recorded")
        # 2. a request uses exactly, a strategy at most, what it was given
        if exact is None:
            d.eq(used, (0.0, 0.0, 0), f"ledger change by {what}")
            d.eq(noise, [], "noise")
            continue
        if exact:
            d.close(used[0], b.epsilon, f"epsilon recorded for {what}", rel=1e-9, abs_=1e-12)
            d.close(used[1], b.delta, f"delta recorded for {what}", rel=1e-9, abs_=1e-12)
        else:
            d.leq(used[0], b.epsilon, f"epsilon recorded for {what} vs its budget", abs_=1e-12)
            d.leq(used[1], b.delta, f"delta recorded for {what} vs its budget", abs_=1e-12)
        if want is not None:
            d.eq(len(noise), len(want), f"number of noise mechanisms applied by {what}")
            for x, y in zip(sorted(noise), want):
                d.close(x, y, f"epsilon of the noise applied by {what} (all: {noise})")
        else:
            d.check(noise, f"{what} released data without noise")
        for est in log.estimates:
            for k in ("reach_epsilon", "frequency_epsilon"):
                d.check(est[k] is not None and np.isfinite(est[k]), f"{what}: estimate with {k}={est[k]}")
        total_e += b.epsilon
        total_d += b.delta
        d.leq(after[0], total_e, "total epsilon vs the sum of the budgets")
        d.leq(after[1], total_d, "total delta vs the sum of the budgets")
    d.eq(tuple(other.privacy_consumption), (0.0, 0.0), "ledger of another simulation")
    for k in kinds:
        d.label(k)
    d.nontrivial(len(kinds - {"truth"}) >= 2)


def one_strategy(d):
    """A strategy fit alone: consumption and number of requests."""
    w = halo.world(d, max_pubs=6, positive=True, lo=4, hi=20, fractions=None)
    b = PrivacyBudget(d.log_float(0.01, 50), d.pick([0.0, 1e-9, 1e-5, 0.01]))
    name, s = _strategy(d, w)
    d.show({"p": w.p, "budget": tuple(b), "strategy": name, "logs": w.logs})
    d.label(f"{name} p={w.p}")
    log = halo.Log()
    try:
        s.fit(w.halo, w.params, b)
    except (ValueError, TypeError, ArithmeticError):
        d.label("not fittable")
    used = halo.ledger(w)
    d.leq(used[0], b.epsilon, "epsilon recorded vs budget", abs_=1e-15)
    d.leq(used[1], b.delta, "delta recorded vs budget", abs_=1e-15)
    d.leq(sum(log.noise), used[0], "epsilon of the noise added vs recorded", abs_=1e-15)
    released = sum(e["reach_epsilon"] + e["frequency_epsilon"] for e in log.estimates)
    d.leq(released, used[0], "epsilon of the estimates vs recorded", abs_=1e-15)
    released = sum(e["reach_delta"] + e["frequency_delta"] for e in log.estimates)
    d.leq(released, used[1], "delta of the estimates vs recorded", abs_=1e-15)
    d.nontrivial(w.p > 1)


CHECK = Check(
    "C06",
    [Sub("history", history, 1200, 24000), Sub("one_strategy", one_strategy, 800, 16000)],
    rule="histories of reach requests, Venn diagram requests, ground truth queries and strategy fits on generated data sets (1-6 publishers), comparing the ledger with the budgets given and with the noise that the noisers (stand-ins that log every use) really added; non-trivial: at least two kinds of release in the history, more than one publisher (one_strategy)",
    assumptions=[
        "the cardinality-estimation package is replaced by a stand-in with the same interface, whose noisers log each use",
        "a noiser object applied to several disjoint regions counts once (parallel composition)",
    ],
)

"""C05: PrivacyTracker reports the worst case consumption over all sampling buckets."""
import copy

from wfa_planning_evaluation_framework.simulator.privacy_tracker import (
    NoisingEvent,
    PrivacyBudget,
    PrivacyTracker,
    SamplingBucketIndices,
)

from vf import gen
from vf.runner import Check, Sub

DEN = 32  # positions are multiples of 1/DEN, budgets are dyadic: all sums exact


def in_arc(x, start, rate):
    """x, start multiples of 1/(2*DEN) in [0,1); the arc [start, start+rate) mod 1."""
    if rate >= 1:
        return True
    return (x - start) % 1.0 < rate


def history(d):
    t = PrivacyTracker()
    d.eq(tuple(t.privacy_consumption), (0.0, 0.0), "consumption of an empty history")
    events = []
    mechs = []
    released = []
    n = gen.count(d, 0, 14, 200)
    prev = None
    checked_wrap = False
    for step in range(n):
        eps = d.dyadic(0, 4, 16)
        delta = d.dyadic(0, 1, 256)
        mech = d.pick(["Laplace", "Discrete Laplace", "Gaussian", "Discrete Gaussian"])
        params = d.pick([{}, {"epsilon": eps}, {"i": step}])
        if released and d.bool(0.2):  # the same release once more
            ev, (eps, delta, *arc), mech = released[d.raw(len(released))]
            arc = tuple(arc)
            if d.bool():
                ev = copy.deepcopy(ev)
        elif d.bool(0.25):
            ev = NoisingEvent(PrivacyBudget(eps, delta), mech, params)
            arc = (0.0, 1.0)
        else:
            kind = d.raw(3)
            if kind == 1 and events:  # share an endpoint with an earlier event
                s0, r0 = events[d.raw(len(events))][2:]
                start = (s0 + r0) % 1.0 if d.bool() else s0
            else:
                start = d.int(0, DEN - 1) / DEN
            rate = d.int(1, DEN) / DEN
            ev = NoisingEvent(PrivacyBudget(eps, delta), mech, params, SamplingBucketIndices(start, rate))
            arc = (start, rate)
        checked_wrap = checked_wrap or arc[0] + arc[1] > 1
        t.append(ev)
        events.append((eps, delta) + arc)
        released.append((ev, events[-1], mech))
        mechs.append(mech)
        if not (step == n - 1 or d.bool(0.4 if n < 15 else 0.02)):
            continue
        # sweep the circle at every multiple of 1/(2 DEN)
        best_e = best_d = 0.0
        for k in range(2 * DEN):
            x = k / (2 * DEN)
            e = sum(v[0] for v in events if in_arc(x, v[2], v[3]))
            dl = sum(v[1] for v in events if in_arc(x, v[2], v[3]))
            best_e, best_d = max(best_e, e), max(best_d, dl)
            if k % 3 == 0 or d.bool(0.05):
                got = t.privacy_consumption_for_sampling_bucket(x)
                d.eq(tuple(got), (e, dl), f"consumption of bucket {x} with events {events}")
        got = t.privacy_consumption
        d.eq(tuple(got), (best_e, best_d), f"worst case consumption with events (eps, delta, start, rate) {events}")
        d.eq(list(t.mechanisms), mechs, "mechanisms")
        if prev is not None:
            d.check(got.epsilon >= prev.epsilon and got.delta >= prev.delta, "consumption went down")
        prev = got
    d.show({"events (eps, delta, start, rate)": events})
    d.label("wraps" if checked_wrap else "no wrap")
    d.nontrivial(len(events) >= 3 and checked_wrap)


def order_free(d):
    """The order of the releases does not matter, and trackers are independent."""
    n = gen.count(d, 1, 10, 150)
    evs = [
        NoisingEvent(
            PrivacyBudget(d.dyadic(0, 4, 16), d.dyadic(0, 1, 256)),
            "Laplace",
            {},
            SamplingBucketIndices(d.int(0, DEN - 1) / DEN, d.int(1, DEN) / DEN),
        )
        for _ in range(n)
    ]
    a, b, idle = PrivacyTracker(), PrivacyTracker(), PrivacyTracker()
    for e in evs:
        a.append(e)
    for e in d.shuffled(evs):
        b.append(e)
    d.show([tuple(e) for e in evs])
    d.eq(tuple(a.privacy_consumption), tuple(b.privacy_consumption), "consumption after reordering the releases")
    d.eq(tuple(idle.privacy_consumption), (0.0, 0.0), "consumption of an unrelated tracker")
    d.eq(list(idle.mechanisms), [], "mechanisms of an unrelated tracker")
    total = tuple(a.privacy_consumption)
    d.check(total[0] <= sum(e.budget.epsilon for e in evs), "more than basic composition")
    d.check(total[0] >= max(e.budget.epsilon for e in evs), "less than the largest event")
    d.nontrivial(n >= 3)


def contains(d):
    s, r = d.int(0, DEN - 1) / DEN, d.int(1, DEN) / DEN
    b = SamplingBucketIndices(s, r)
    d.show((s, r))
    for k in range(2 * DEN):
        x = k / (2 * DEN)
        d.eq(bool(b.contains(x)), in_arc(x, s, r), f"contains({x}) of [{s}, {s}+{r}) mod 1")
    d.nontrivial(s + r > 1)


CHECK = Check(
    "C05",
    [Sub("history", history, 9000, 72000), Sub("order_free", order_free, 6000, 48000), Sub("contains", contains, 3000, 24000)],
    rule="histories of noising events whose sampling intervals have end points on a grid of 1/32 (touching, nested, wrapping, whole circle, the very same release repeated) and dyadic budgets, compared exactly with a sweep of the circle at twice the resolution; non-trivial: at least three events of which one wraps around (history), at least three (order_free), the interval wraps (contains)",
    assumptions=["interval end points and budgets are dyadic, so that float sums are exact in any order"],
)

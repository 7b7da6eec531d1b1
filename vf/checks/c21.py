"""C21: simulated Venn diagram points are a consistent measure on the publishers' subsets."""
from itertools import combinations

import numpy as np

from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator

from vf import gen, halo
from vf.runner import Check, Sub


def _venn(d, w, q, b, sp, h=None):
    try:
        return (h or w.halo).simulated_venn_diagram_reach_by_spend(q, b, sp)
    except RuntimeError as e:
        if "active registers" in str(e):
            return None
        raise


def _index(d, w, q, points):
    """{subset of active publishers: reach}, after checking the shape of the points."""
    active = [i for i, s in enumerate(q) if s]
    imps = [sum(gen.counts_by_spend(e, s).values()) for e, s in zip(w.logs, q)]
    out = {}
    for rp in points:
        sub = frozenset(i for i, s in enumerate(rp.spends) if s)
        d.check(sub and sub <= set(active), f"point for the subset {sorted(sub)} of the active publishers {active}")
        d.check(sub not in out, f"two points for the subset {sorted(sub)}")
        d.eq(list(rp.spends), [s if i in sub else 0 for i, s in enumerate(q)], "spends of a point")
        d.eq(list(rp.impressions), [n if i in sub else 0 for i, n in enumerate(imps)], "impressions of a point")
        d.eq(rp.universe_size, w.universe, "universe of a point")
        d.eq(rp.max_frequency, 1, "max_frequency of a point")
        out[sub] = float(rp.reach())
    d.eq(len(out), 2 ** len(active) - 1, f"number of subsets of {len(active)} active publishers")
    return active, out


def _regions(active, reach):
    """Moebius inversion: reach of those reached by all and only the publishers of S."""
    full = frozenset(active)
    out = {}
    for r in range(1, len(active) + 1):
        for s in combinations(active, r):
            s = frozenset(s)
            # users of regions T meeting S: reach(S). Regions inside S^c: total - reach(S)
            total = 0.0
            inner = list(s)
            for k in range(0, len(inner) + 1):
                for t in combinations(inner, k):
                    rest = full - s | frozenset(t)  # users only in regions inside (S minus t)
                    only_inside = reach[full] - (reach[rest] if rest else 0.0)
                    total += (-1) ** k * only_inside
            out[s] = total
    return out


def consistent(d):
    w = halo.world(d, max_pubs=5, hi=14, ids=d.pick([6, 14]), sketch=(d.pick([1, 6, 12]), d.pick([300, 1000])), positive=True, many_pubs=10)
    q = halo.spends_vector(d, w)
    b = halo.budget(d, d.pick([0.5, 1.0, 4.0]))
    sp = d.pick([0.25, 0.75, 0.9])
    log = halo.Log()
    points = _venn(d, w, q, b, sp)
    true_n = len(gen.merged([gen.counts_by_spend(e, s) for e, s in zip(w.logs, q)]))
    d.show({"logs": w.logs, "spends": q, "true reach": true_n})
    if not any(q):
        d.eq(points, [], "Venn diagram without spend")
        d.label("no spend")
        return
    if points is None:
        d.check(true_n != 1, "no active register although exactly one user is reached")
        d.label("no active registers")
        return
    active, reach = _index(d, w, q, points)
    full = frozenset(active)
    # the union of all active publishers is the noised cardinality estimate, unless
    # the noised sample is empty
    card = [c for c in log.calls if abs(c[0] - b.epsilon * (1 - sp)) < 1e-12]
    reg = [c for c in log.calls if abs(c[0] - b.epsilon * sp) < 1e-12]
    d.eq(len(card), 1, "number of cardinality estimates released")
    d.eq(len(reg), 2 ** len(active) - 1, "number of noised regions")
    noised_total = sum(max(0, c[3]) for c in reg)
    if noised_total:
        d.close(reach[full], card[0][3], "reach of all publishers vs the noised cardinality estimate", rel=1e-6, abs_=1e-6)
    else:
        d.close(reach[full], 0, "reach when no sampled user is left")
    sampled = sum(int(c[2]) for c in reg)
    d.check(0 < sampled <= true_n, f"{sampled} users sampled out of {true_n}")
    # inclusion-exclusion: every region has the sign of the total (a measure)
    sign = 1 if reach[full] >= 0 else -1
    regions = _regions(active, reach)
    tol = 1e-6 * max(1.0, abs(reach[full]))
    for s, v in regions.items():
        d.check(sign * v >= -tol, f"region {sorted(s)} has reach {v} (total {reach[full]})")
    got = sorted(round(abs(v), 4) for v in regions.values())
    scale = abs(reach[full]) / noised_total if noised_total else 0
    want = sorted(round(max(0, c[3]) * scale, 4) for c in reg)
    for x, y in zip(got, want):
        d.close(x, y, "regions vs the scaled noised regions", rel=1e-4, abs_=1e-3)
    for s in reach:
        for i in full - s:
            d.check(sign * (reach[s | {i}] - reach[s]) >= -tol, f"reach of {sorted(s)} is above that of a larger set")
    d.nontrivial(len(active) >= 2 and true_n >= 3)
    d.label(f"{len(active)} active")


def exact(d):
    """Practically no noise and a huge sketch: regions are proportional to the truth."""
    w = halo.world(d, max_pubs=4, hi=10, ids=d.pick([5, 9]), sketch=(1, 40000), positive=True, many_pubs=9)
    q = halo.spends_vector(d, w)
    log = halo.Log()
    points = _venn(d, w, q, halo.budget(d, 1e4), 0.75)
    if not points:
        d.label("no points")
        return
    active, reach = _index(d, w, q, points)
    per = {i: set(gen.counts_by_spend(w.logs[i], q[i])) for i in active}
    everyone = set().union(*per.values())
    d.show({"logs": w.logs, "spends": q, "users": len(everyone), "points": len(points)})
    reg = [c for c in log.calls if abs(c[0] - 7500) < 1e-6]
    sampled = sum(int(c[2]) for c in reg)
    total = reach[frozenset(active)]
    d.check(abs(total - len(everyone)) <= 2 + 0.05 * len(everyone), f"total {total} vs {len(everyone)} users")
    if sampled != len(everyone):
        d.label("collisions")
        return
    for s, r in reach.items():
        users = set().union(*(per[i] for i in s))
        d.close(r / total, len(users) / len(everyone), f"share of the subset {sorted(s)}", rel=1e-9, abs_=1e-9)
    d.nontrivial(len(active) >= 2 and any(per[i] & per[j] for i in active for j in active if i < j))


def sampling(d):
    """The regions are counts of a uniform sample: the users alone in their register."""
    decay, m = d.pick([(1, 1), (1, 4), (2, 16), (8, 40), (12, 300)])
    w = halo.world(d, max_pubs=2, hi=30, lo=6, ids=40, sketch=(decay, m), positive=True)
    q = [1e9 + x for x in w.max_spends]
    per = [set(u for u, _ in e) for e in w.logs]
    n = len(set().union(*per))
    d.show({"users": n, "decay rate": decay, "sketch size": m, "publishers": w.p})
    probs = np.exp(-decay * np.arange(m) / m)
    probs /= probs.sum()
    alone = n * probs * (1 - probs) ** (n - 1)
    expected = float(alone.sum())
    runs, none, sizes, first = 40, 0, [], []

    for _ in range(runs):
        log = halo.Log()
        points = _venn(d, w, q, halo.budget(d, 4.0), 0.75)
        if points is None:
            none += 1
            sizes.append(0)
            continue
        reg = [int(c[2]) for c in log.calls if abs(c[0] - 3.0) < 1e-9]
        sizes.append(sum(reg))
        if m >= 40:
            first.append(reg)
    if m == 1 and n > 1:
        d.eq(none, runs, "requests refused with a single register")
    # at most one user per register and per user: deviations of the mean over the runs
    var = max(1.0, min(n, m) * 1.0)
    d.check(
        abs(np.mean(sizes) - expected) <= 7 * np.sqrt(var / runs),
        f"{np.mean(sizes)} of {n} users sampled on average, {expected} expected",
    )
    if first:
        # each region gets its share of the sample
        total = sum(map(sum, first))
        shares = sorted(sum(r[j] for r in first) / total for j in range(len(first[0])))
        sets = [per[0]] if w.p == 1 else [per[0] - per[1], per[1] - per[0], per[0] & per[1]]
        want = sorted(len(s) / n for s in sets)
        for x, y in zip(shares, want):
            d.check(abs(x - y) <= 7 * np.sqrt(0.25 / total) + 1e-9, f"shares {shares} of the regions in the samples, {want} in the data")
    d.nontrivial(n > 1)


def domain(d):
    """max_frequency must be 1; at most 20 active publishers."""
    w = halo.world(d, max_pubs=2, hi=4, sketch=(1, 200), positive=True)
    q = halo.spends_vector(d, w)
    before = halo.ledger(w)
    d.raises(
        ValueError,
        lambda: w.halo.simulated_venn_diagram_reach_by_spend(q, halo.budget(d), 0.5, d.pick([2, 3, 10, 0])),
        "Venn diagram with max_frequency other than 1",
    )
    n = d.int(21, 24)
    from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
    from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

    ds = DataSet([PublisherData([(1, 1.0), (i, 2.0)], f"p{i}") for i in range(n)], "big", 1000)
    h = HaloSimulator(ds, w.params._replace(campaign_spend_fractions=[1.0] * n), w.tracker)
    log = halo.Log()
    d.raises(ValueError, lambda: h.simulated_venn_diagram_reach_by_spend([2.0] * n, halo.budget(d)), f"{n} active publishers")
    d.eq(halo.ledger(w), before, "ledger after refused requests")
    d.eq(log.noise, [], "noise of refused requests")
    # inactive publishers do not count
    k = gen.count(d, 1, 4, 11, 0.04, even=True)
    spends = [0.0] * n
    for i in d.perm(n)[:k]:
        spends[i] = 2.0
    pts = _venn(d, w, spends, halo.budget(d, 4.0), 0.5, h)
    if pts is None:
        d.label("no active registers")
        return
    d.eq(len(pts), 2 ** k - 1, f"points for {k} active of {n} publishers")
    d.show({"n": n, "k": k})
    d.nontrivial()


CHECK = Check(
    "C21",
    [Sub("consistent", consistent, 1800, 20000), Sub("exact", exact, 480, 4000), Sub("sampling", sampling, 120, 1500), Sub("domain", domain, 240, 1920)],
    rule="generated data sets with 1-5 publishers, spends inside / at / beyond the data, zero spends, sketches of several sizes; the reach of every subset is Moebius-inverted into regions and compared with the noised regions and the brute force Venn diagram; non-trivial: two active publishers and three users (consistent), two active publishers sharing users (exact), several users (sampling; means over 40 requests within 7 standard deviations)",
    assumptions=["stand-in noisers that log input and output; two-sided geometric noise"],
)

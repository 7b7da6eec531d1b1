"""C17: labelling ids for cross-publisher overlap preserves every publisher's own curve."""
from collections import Counter, defaultdict

import numpy as np

from wfa_planning_evaluation_framework.data_generators.independent_overlap_data_set import IndependentOverlapDataSet
from wfa_planning_evaluation_framework.data_generators.overlap_data_set import OverlapDataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.data_generators.sequentially_correlated_overlap_data_set import (
    CorrelatedSetsOptions,
    OrderOptions,
    SequentiallyCorrelatedOverlapDataSet,
)
from wfa_cardinality_estimation_evaluation_framework.simulations import set_generator

from vf import gen
from vf.runner import Check, Sub


def _pubs(d, max_pubs=5, hi=30, ids=None):
    n = gen.count(d, 1, max_pubs, 16)
    logs = [gen.events(d, hi=hi, ids=ids or d.pick([3, 9, 40]), many=1500 if n <= max_pubs and not ids else 0) for _ in range(n)]
    # names need not be distinct: they say nothing about who is reached
    names = [f"n{i}" for i in range(n)] if d.bool(0.7) else [d.pick(["n", "m"]) for _ in range(n)]
    if n > 1 and d.bool(0.3):
        logs[-1] = list(logs[0])
    return logs, [PublisherData(list(e), names[i]) for i, e in enumerate(logs)]


def _preserved(d, ds, logs, pubs, sets=None):
    """Each publisher: same events up to an injective renaming of ids."""
    d.eq(ds.publisher_count, len(logs), "publisher_count")
    for i, e in enumerate(logs):
        q = [-1e9] * len(logs)
        spends = sorted({s for _, s in e})
        seen = {}
        for s in spends[:: max(1, len(spends) // 6)] + [spends[-1]]:
            q[i] = s
            mf = 6
            rp = ds.reach_by_spend(q, mf)
            want = gen.counts_by_spend(e, s)
            d.eq(gen.frozen_kplus(rp), gen.kplus(want, mf), f"k+ reaches of publisher {i} at spend {s}")
            d.eq(list(rp.impressions), [sum(want.values()) if j == i else 0 for j in range(len(logs))], "impressions")
        new = ds._data[i]
        d.eq(new.name, pubs[i].name, "publisher name")
        d.eq(new.max_spend, spends[-1], "max_spend")
        got = Counter(new.user_counts_by_spend(spends[-1]))
        d.eq(len(got), len({u for u, _ in e}), "number of users")
        # the profile (sorted spends of each user's impressions) is preserved as a multiset
        prof = lambda log: Counter(tuple(v) for v in _by_user(log).values())
        d.eq(prof(new._data), prof(e), f"spends per user of publisher {i}")
        if sets is not None:
            d.eq({int(x) for x in got}, {int(x) for x in sets[i]}, f"ids of publisher {i}")
        # the input is untouched
        d.eq(dict(pubs[i].user_counts_by_spend(1e18)), gen.counts_by_spend(e, 1e18), f"the unlabelled publisher {i}")


def _by_user(log):
    out = defaultdict(list)
    for u, s in log:
        out[u].append(s)
    return {u: sorted(v) for u, v in out.items()}


def labels(d):
    logs, pubs = _pubs(d)
    sizes = [len({u for u, _ in e}) for e in logs]
    universe = max(sizes) + d.pick([0, 1, 10, 10 ** 6])
    sets = []
    for s in sizes:
        pool = [d.raw(universe + 1) for _ in range(3 * s)]
        chosen = []
        for x in pool + list(range(universe)):
            if x not in chosen:
                chosen.append(x)
            if len(chosen) == s:
                break
        sets.append(chosen)
    d.show({"logs": logs, "sets": sets})
    calls = []

    class Given:
        def __init__(self, set_sizes, extra=None):
            calls.append((list(set_sizes), extra))

        def __iter__(self):
            return iter([np.array(s) for s in sets])

    name = d.pick(["ov", "x y"])
    ds = OverlapDataSet(pubs, Given, {"extra": 5}, name=name)
    d.eq(calls, [(sizes, 5)], "what the overlap generator was given")
    d.eq(ds.name, name, "name")
    _preserved(d, ds, logs, pubs, sets)
    union = set().union(*[set(s) for s in sets])
    d.eq(ds.maximum_reach, len(union), "maximum reach")
    d.eq(ds.reach_by_spend([1e18] * len(logs)).reach(), len(union), "union reach")
    for i in range(len(logs)):
        for j in range(i):
            q = [1e18 if k in (i, j) else -1e9 for k in range(len(logs))]
            d.eq(ds.reach_by_spend(q).reach(), len(set(sets[i]) | set(sets[j])), f"union of publishers {i} and {j}")
    if d.bool(0.2):
        broken = [s[:-1] if k == 0 else s for k, s in enumerate(sets)]

        class Wrong(Given):
            def __iter__(self):
                return iter([np.array(s) for s in broken])

        d.raises((AssertionError, ValueError), lambda: OverlapDataSet(pubs, Wrong), "sets of the wrong size")
    d.nontrivial(len(logs) > 1 and len(union) < sum(sizes))


class Spy:
    """Records what the stand-in set generators are constructed with."""

    def __init__(self, module, cls):
        self.calls = []
        self.init = cls.__init__
        self.cls = cls
        spy = self

        def wrapped(self_, *a, **k):
            spy.calls.append((a, dict(k)))
            return spy.init(self_, *a, **k)

        cls.__init__ = wrapped

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.cls.__init__ = self.init


def independent(d):
    logs, pubs = _pubs(d)
    sizes = [len({u for u, _ in e}) for e in logs]
    universe = max(sizes) + d.pick([0, 1, 10, 200])
    seed = d.seed()
    d.show({"logs": logs, "universe": universe})

    def build(s, **k):
        with Spy(set_generator, set_generator.IndependentSetGenerator) as spy:
            ds = IndependentOverlapDataSet(pubs, universe, np.random.default_rng(s), **k)
        return ds, spy.calls

    ds, calls = build(seed, **({"name": "nn"} if d.bool() else {}))
    d.check(ds.name in ("nn", "independent"), f"name {ds.name}")
    d.eq(len(calls), 1, "overlap generators")
    a, k = calls[0]
    d.eq((k.get("universe_size"), list(k.get("set_sizes", []))), (universe, sizes), "universe and sizes given to the overlap generator")
    _preserved(d, ds, logs, pubs)
    ids = {int(u) for i in range(len(logs)) for u in ds._data[i].user_counts_by_spend(1e18)}
    d.check(all(0 <= u < universe for u in ids), f"ids outside the universe of {universe}")
    np.random.seed(d.raw(99))
    same, _ = build(seed)
    for i in range(len(logs)):
        d.eq(
            {int(u) for u in same._data[i].user_counts_by_spend(1e18)},
            {int(u) for u in ds._data[i].user_counts_by_spend(1e18)},
            f"ids of publisher {i} with the same seed",
        )
    d.nontrivial(len(logs) > 1)


def purchases(d):
    """Independent overlap holds for what is bought, not only for the whole audiences."""
    p = d.int(2, 3)
    universe = d.int(150, 600)
    sizes = [d.int(60, universe) for _ in range(p)]
    # one impression per user, in the order of the ids or in a random one
    users = [list(range(n)) if d.bool(0.7) else d.perm(n) for n in sizes]
    pubs = [PublisherData([(u, float(k + 1)) for k, u in enumerate(us)], f"n{i}") for i, us in enumerate(users)]
    bought = [d.int(n // 4, n) for n in sizes]
    rng = np.random.default_rng(d.seed())
    d.show({"universe": universe, "sizes": sizes, "bought": bought})
    times = 12
    overlap = defaultdict(int)
    for _ in range(times):
        ds = IndependentOverlapDataSet(pubs, universe, rng)
        for i in range(p):
            for j in range(i):
                q = [float(bought[k]) if k in (i, j) else 0.0 for k in range(p)]
                overlap[i, j] += bought[i] + bought[j] - ds.reach_by_spend(q).reach()
    for (i, j), got in overlap.items():
        a, b = bought[i], bought[j]
        want = a * b / universe
        var = want * (1 - a / universe) * (1 - b / universe) * universe / (universe - 1)
        tol = 8 * (times * var) ** 0.5 + 8
        d.check(
            abs(got - times * want) <= tol,
            f"{a} and {b} users bought from publishers {i} and {j} of a universe of {universe} share {got / times:.1f} on average, {want:.1f} expected",
        )
    d.nontrivial()


def sequential(d):
    logs, pubs = _pubs(d)
    sizes = [len({u for u, _ in e}) for e in logs]
    order = d.pick([OrderOptions.original, "original", OrderOptions.reversed])
    corr = d.pick([CorrelatedSetsOptions.all, CorrelatedSetsOptions.one, "all", "one"])
    prop = d.pick([0.0, 0.25, 0.5, 1.0])
    seed = d.pick([None, d.seed()])
    d.show({"logs": logs, "order": str(order), "correlated": str(corr), "shared": prop})

    def build():
        with Spy(set_generator, set_generator.SequentiallyCorrelatedSetGenerator) as spy:
            g = np.random.default_rng(seed) if seed is not None else None
            ds = SequentiallyCorrelatedOverlapDataSet(pubs, order, corr, prop, random_generator=g)
        return ds, spy.calls

    ds, calls = build()
    a, k = calls[0]
    val = lambda x: getattr(x, "value", x)
    d.eq(
        (val(k["order"]), val(k["correlated_sets"]), k["shared_prop"], list(k["set_sizes"])),
        (val(order), val(corr), prop, sizes),
        "what the overlap generator was given",
    )
    d.eq(ds.name, "sequentially_correlated", "default name")
    _preserved(d, ds, logs, pubs)
    np.random.seed(d.raw(99))
    same, _ = build()
    for i in range(len(logs)):
        d.eq(
            {int(u) for u in same._data[i].user_counts_by_spend(1e18)},
            {int(u) for u in ds._data[i].user_counts_by_spend(1e18)},
            f"ids of publisher {i} with the same seed",
        )
    if prop == 0.0:
        d.eq(ds.maximum_reach, sum(sizes), "reach of disjoint publishers")
    d.nontrivial(len(logs) > 1 and prop > 0)


CHECK = Check(
    "C17",
    [Sub("labels", labels, 5000, 40000), Sub("independent", independent, 3000, 24000), Sub("purchases", purchases, 160, 1600), Sub("sequential", sequential, 3000, 24000)],
    rule="random publishers with random sets of new ids (any overlap), and the independent and sequentially correlated constructions; every publisher's events are compared up to renaming of users, unions with the unions of the given sets; the overlap of partial purchases under independence, over 12 constructions, within 8 standard deviations; non-trivial: several publishers with overlapping sets (labels), several publishers",
    assumptions=["the set generators are stand-ins for the cardinality-estimation package"],
)

"""C02: DataSet ground truth reach equals a brute force count over all publishers."""
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

from vf import gen
from vf.runner import Check, Sub


def dataset(d, max_pubs=6, hi=30, distinct=False):
    np_ = gen.count(d, 1, max_pubs, 40) if max_pubs > 2 else d.size(1, max_pubs)
    ids = d.pick([4, 12, 50])
    logs = [
        gen.events(d, hi=hi if np_ <= 6 else 5, many=800 if np_ <= 6 else 0, ids=ids, style="distinct" if distinct else None)
        for _ in range(np_)
    ]
    pubs = [PublisherData(list(e), f"p{i}") for i, e in enumerate(logs)]
    return logs, pubs


def _vec(d, xs):
    return tuple(xs) if d.bool(0.3) else list(xs)


def by_spend(d):
    logs, pubs = dataset(d)
    universe = d.pick([None, None, 1000, 77, 0])
    ds = DataSet(pubs, "ds", universe) if universe is not None else DataSet(pubs, "ds")
    everyone = {i for e in logs for i, _ in e}
    d.show({"logs": logs})
    d.eq(ds.publisher_count, len(logs), "publisher_count")
    d.eq(ds.maximum_reach, len(everyone), "maximum_reach")
    want_universe = universe if universe is not None else 2 * len(everyone)
    d.eq(ds.universe_size, want_universe, "universe_size")
    d.eq(ds.name, "ds", "name")
    for _ in range(3):
        q = _vec(d, [gen.query_spends(d, e, 1)[0] for e in logs])
        mf = d.pick([1, 2, 3, 10, 15, 70])
        use_default = d.bool(0.2)
        rp = ds.reach_by_spend(q) if use_default else ds.reach_by_spend(q, mf)
        if use_default:
            mf = 10
        per = [gen.counts_by_spend(e, s) for e, s in zip(logs, q)]
        counts = gen.merged(per)
        d.eq(rp.max_frequency, mf, "max_frequency")
        d.eq(gen.frozen_kplus(rp), gen.kplus(counts, mf), f"k+ reaches at spends {q}")
        d.eq(list(rp.impressions), [sum(c.values()) for c in per], "impressions")
        d.eq(list(rp.spends), list(q), "spends")
        d.eq(rp.universe_size, want_universe, "universe of the point")
        d.eq(list(ds.impressions_by_spend(q)), [sum(c.values()) for c in per], "impressions_by_spend")
        shared = any(set(a) & set(b) for i, a in enumerate(per) for b in per[:i])
        d.nontrivial(shared)
        d.label("overlap" if shared else "no overlap")


def by_impressions(d):
    distinct = d.bool(0.6)
    logs, pubs = dataset(d, distinct=distinct)
    ds = DataSet(pubs, "ds")
    d.show({"logs": logs})
    for _ in range(3):
        imps = [d.int(0, len(e) + (3 if d.bool(0.2) else 0)) for e in logs]
        q = _vec(d, imps)
        mf = d.pick([1, 2, 3, 10, 15, 70])
        use_default = d.bool(0.2)
        rp = ds.reach_by_impressions(q) if use_default else ds.reach_by_impressions(q, mf)
        if use_default:
            mf = 10
        d.eq(rp.max_frequency, mf, "max_frequency")
        if distinct:
            per = []
            for e, k in zip(logs, imps):
                c = {}
                for i, _ in sorted(e, key=lambda x: x[1])[:k]:
                    c[i] = c.get(i, 0) + 1
                per.append(c)
        else:
            per = [p.user_counts_by_impressions(k) for p, k in zip(pubs, imps)]
        counts = gen.merged(per)
        d.eq(gen.frozen_kplus(rp), gen.kplus(counts, mf), f"k+ reaches at impressions {imps}")
        d.eq(list(rp.impressions), imps, "impressions")
        want_spends = [
            0.0 if k == 0 else sorted(s for _, s in e)[min(k, len(e)) - 1]
            for e, k in zip(logs, imps)
        ]
        d.eq(list(rp.spends or [0.0] * len(logs)), want_spends, "spends of the point")
        d.eq(list(ds.spend_by_impressions(q)), want_spends, "spend_by_impressions")
        d.eq(rp.universe_size, ds.universe_size, "universe of the point")
        d.nontrivial(any(set(a) & set(b) for i, a in enumerate(per) for b in per[:i]))


def laws(d):
    """Permutation invariance, monotonicity, sub-additivity, wrong lengths refused."""
    logs, pubs = dataset(d)
    ds = DataSet(pubs, "ds")
    d.show({"logs": logs})
    n = len(logs)
    q = [gen.query_spends(d, e, 1)[0] for e in logs]
    mf = d.pick([1, 3, 10])
    base = gen.frozen_kplus(ds.reach_by_spend(q, mf))
    perm = d.perm(n)
    ds2 = DataSet([pubs[i] for i in perm], "ds")
    d.eq(gen.frozen_kplus(ds2.reach_by_spend([q[i] for i in perm], mf)), base, f"k+ reaches after reordering the publishers by {perm}")
    j = d.raw(n)
    more = list(q)
    more[j] = q[j] + abs(q[j]) * d.unit() + d.float(0, 5)
    bigger = gen.frozen_kplus(ds.reach_by_spend(more, mf))
    d.check(all(b >= a for a, b in zip(base, bigger)), f"reach fell when publisher {j} spent more: {base} -> {bigger}")
    singles = []
    for i in range(n):
        v = [0.0 if k != i else q[k] for k in range(n)]
        if any(s <= 0 for _, s in [e for k in range(n) for e in logs[k]]):
            v = [-1.0 if k != i else q[k] for k in range(n)]
        singles.append(ds.reach_by_spend(v, 1).reach())
    d.check(max(singles) <= base[0] <= sum(singles), f"reach {base[0]} outside [max, sum] of {singles}")
    top = ds.reach_by_spend([1e18] * n, mf)
    d.eq(top.reach(), ds.maximum_reach, "reach at unlimited spend")
    wrong = d.pick([q + [1.0], q[:-1], []])
    if len(wrong) != n:
        d.raises(ValueError, lambda: ds.reach_by_spend(wrong, mf), "spend vector of the wrong length")
        d.raises(ValueError, lambda: ds.reach_by_impressions([1] * len(wrong), mf), "impression vector of the wrong length")
    # the data set is a snapshot and queries do not change it
    extra = d.pick([None, "append", "clear", "rename"])
    if extra == "append":
        pubs.append(PublisherData([(10**9, 0.5)], "extra"))
    elif extra == "clear":
        del pubs[:]
    elif extra == "rename":
        pubs[0].name = "other"
    d.eq(ds.publisher_count, n, "publisher_count after the caller changed its own list")
    d.eq(ds.reach_by_spend([1e18] * n, mf).reach(), ds.maximum_reach, "reach after the caller changed its own list")
    d.eq(gen.frozen_kplus(ds.reach_by_spend(q, mf)), base, "the same query asked twice")
    d.nontrivial(n > 1 and base[0] > 0)


def unnamed(d):
    logs, pubs = dataset(d, max_pubs=2, hi=4)
    ds = DataSet(pubs)
    d.check(isinstance(ds.name, str) and ds.name.isdigit(), lambda: f"an unnamed data set should get a digit-string name, got {ds.name!r}")
    d.nontrivial()


CHECK = Check(
    "C02",
    [
        Sub("by_spend", by_spend, 9000, 72000),
        Sub("by_impressions", by_impressions, 7500, 60000),
        Sub("laws", laws, 7500, 60000),
        Sub("unnamed", unnamed, 40, 200),
    ],
    rule="1-6 publishers with random overlapping event logs, queried at and around event spends and at impression counts; non-trivial: the queried prefixes of at least two publishers share a user (by_spend, by_impressions), several publishers and a non-zero reach (laws)",
)

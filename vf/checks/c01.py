"""C01: PublisherData answers spend / impression queries from the event log."""
from collections import Counter

from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

from vf import gen
from vf.runner import Check, Sub


def _model(d):
    evs = gen.events(d, hi=60 if not d.big else 300, many=2500)
    given = list(evs)
    name = d.pick(["pub", "1", "a b", None])
    p = PublisherData(given, name)
    return evs, given, name, p


def queries(d):
    evs, given, name, p = _model(d)
    n = len(evs)
    spends = sorted(s for _, s in evs)
    d.show({"events": evs, "name": name})
    d.nontrivial(n > 1 and (spends != [s for _, s in evs] or len(set(spends)) < n))
    d.label("unsorted" if spends != [s for _, s in evs] else "sorted")
    d.label("ties" if len(set(spends)) < n else "no ties")
    d.eq(given, evs, "the caller's event list was changed")
    d.eq(p.max_impressions, n, "max_impressions")
    d.eq(p.max_spend, spends[-1], "max_spend")
    d.eq(p.max_reach, len({i for i, _ in evs}), "max_reach")
    if name is None:
        d.check(
            isinstance(p.name, str) and p.name.isdigit(),
            lambda: f"an unnamed publisher should get a digit-string name, got {p.name!r}",
        )
    else:
        d.eq(p.name, name, "name")
    # by spend: exactly the events costing no more than the spend
    for q in gen.query_spends(d, evs, 5):
        want = gen.counts_by_spend(evs, q)
        d.eq(dict(p.user_counts_by_spend(q)), want, f"user_counts_by_spend({q!r})")
        d.eq(p.impressions_by_spend(q), sum(want.values()), f"impressions_by_spend({q!r})")
    # by impressions: some prefix of the log in order of spend
    ks = sorted({0, 1, n, n + d.int(1, 5)} | {d.int(0, n) for _ in range(4)})
    prev = Counter()
    for k in ks:
        got = Counter(p.user_counts_by_impressions(k))
        m = min(k, n)
        d.eq(sum(got.values()), m, f"total impressions of user_counts_by_impressions({k})")
        if m == 0:
            d.eq(p.spend_by_impressions(k), 0.0, f"spend_by_impressions({k})")
        else:
            cost = spends[m - 1]
            d.eq(p.spend_by_impressions(k), cost, f"spend_by_impressions({k})")
            below = Counter(i for i, s in evs if s < cost)
            upto = Counter(i for i, s in evs if s <= cost)
            d.check(
                not (below - got) and not (got - upto),
                lambda: f"user_counts_by_impressions({k})={dict(got)} is not a spend-order prefix of {evs}",
            )
            # round trip: the spend of a purchase buys at least that purchase
            d.check(
                p.impressions_by_spend(p.spend_by_impressions(k)) >= m,
                f"impressions_by_spend(spend_by_impressions({k})) < {m}",
            )
        d.check(not (prev - got), f"the first {k} impressions lost some of the earlier ones")
        prev = got


def isolation(d):
    """Later changes of the caller's list, or of returned counts, have no effect."""
    evs, given, name, p = _model(d)
    d.show({"events": evs})
    q = gen.query_spends(d, evs, 1)[0]
    k = d.int(0, len(evs))
    before = (dict(p.user_counts_by_spend(q)), p.impressions_by_spend(q), p.spend_by_impressions(k), dict(p.user_counts_by_impressions(k)))
    r = p.user_counts_by_spend(q)
    r[-5] = 99
    r2 = p.user_counts_by_impressions(k)
    r2.clear()
    given.reverse()
    given.append((123456, 1e12))
    if d.bool():
        del given[0]
    after = (dict(p.user_counts_by_spend(q)), p.impressions_by_spend(q), p.spend_by_impressions(k), dict(p.user_counts_by_impressions(k)))
    d.eq(after, before, "answers changed after the caller's list or returned values were changed")
    d.eq(p.max_impressions, len(evs), "max_impressions after the change")
    d.nontrivial(len(evs) > 1)


def order(d):
    """With distinct spends the order in which events are given does not matter."""
    evs = gen.events(d, hi=40, style="distinct")
    p, q = PublisherData(list(evs), "a"), PublisherData(d.shuffled(evs), "a")
    d.show({"events": evs})
    for k in range(len(evs) + 2):
        d.eq(dict(p.user_counts_by_impressions(k)), dict(q.user_counts_by_impressions(k)), f"by impressions {k}")
        d.eq(p.spend_by_impressions(k), q.spend_by_impressions(k), f"spend of {k}")
    for s in gen.query_spends(d, evs, 4):
        d.eq(p.impressions_by_spend(s), q.impressions_by_spend(s), f"impressions of {s}")
    d.nontrivial(len(evs) > 2)


CHECK = Check(
    "C01",
    [Sub("queries", queries, 18000, 144000), Sub("isolation", isolation, 4500, 36000), Sub("order", order, 3000, 24000)],
    rule="random event logs (ties, unsorted, repeated users, tiny/huge spends) with queries at, next to and between event spends; non-trivial: more than one event and the log is unsorted or has ties (queries), more than one/two events (isolation/order)",
    assumptions=["with tied spends any order among the tied events is accepted"],
)

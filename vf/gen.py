"""Generators shared by several checks, and brute force models of event logs."""
import math
import random
from collections import Counter

MANY = 0.015  # share of the cases that are far larger than the others


def count(d, lo, hi, many, p=MANY, even=False):
    """A size in [lo, hi], now and then one up to many."""
    return d.int(hi + 1, many) if d.bool(p) else d.int(lo, hi) if even else d.size(lo, hi)


def spend_value(d, style):
    if style == "grid":  # many ties
        return d.int(0, 8) / 4.0
    if style == "cents":
        return d.int(0, 400) * 0.01
    if style == "tiny":
        return d.float(0, 1) * 1e-9
    if style == "huge":
        return d.float(0, 1) * 1e9
    return d.float(0, 20)


def events(d, lo=1, hi=40, ids=None, style=None, many=0):
    """A list of (id, spend): unsorted, with ties and repeated users; now and then up to many of them."""
    if many and d.bool(MANY):
        return many_events(d, many, ids, style)
    n = d.size(lo, hi)
    style = style or d.pick(["grid", "cents", "float", "distinct", "tiny", "huge"])
    if ids is None:
        ids = d.pick([3, 10, 60, 10 ** 9, 2 ** 50])
    if style == "distinct":
        spends = [float(x + 1) / 8 for x in d.perm(n)]
    else:
        spends = [spend_value(d, style) for _ in range(n)]
    order = d.raw(3)
    evs = [(d.int(0, ids), s) for s in spends]
    if order == 0:
        evs.sort(key=lambda e: e[1])
    elif order == 1:
        evs.sort(key=lambda e: -e[1])
    if style != "distinct" and d.bool(0.3) and n > 1:
        # duplicate whole events (same user, same spend)
        evs += [evs[d.raw(n)] for _ in range(d.int(1, 3))]
    return evs


def many_events(d, many, ids=None, style=None):
    """A large log from a few choices."""
    n = d.int(many // 4, many)
    ids = d.pick([10, n // 2, 2 ** 50] if ids is None else [ids, n // 2])
    r = random.Random(d.seed())
    if style == "distinct" or d.bool():
        spends = [float(x + 1) / 8 for x in range(n)]
        r.shuffle(spends)
    else:
        step = d.pick([0.25, 0.01, 1e-9, 1e6])
        spends = [r.randrange(n) * step for _ in range(n)]
    return [(r.randint(0, ids), s) for s in spends]


def query_spends(d, evs, k=4):
    """Spend amounts around the events: exact, just off, in between, outside."""
    spends = sorted({s for _, s in evs})
    out = []
    for _ in range(k):
        kind = d.raw(6)
        s = spends[d.raw(len(spends))]
        if kind == 0:
            out.append(s)
        elif kind == 1:
            out.append(math.nextafter(s, math.inf) if hasattr(math, "nextafter") else s * (1 + 2e-16))
        elif kind == 2:
            q = math.nextafter(s, -math.inf) if hasattr(math, "nextafter") else s * (1 - 2e-16)
            out.append(max(0.0, q))
        elif kind == 3:
            out.append(0.0)
        elif kind == 4:
            out.append(spends[-1] * d.float(0, 2))
        else:
            out.append(spends[-1] * 10 + 1)
    return out


def counts_by_spend(evs, spend):
    return dict(Counter(i for i, s in evs if s <= spend))


def kplus(counts, max_frequency):
    """Brute force: number of users reached at least k times, k=1..max_frequency."""
    return [sum(1 for c in counts.values() if c >= k) for k in range(1, max_frequency + 1)]


def merged(counters):
    total = Counter()
    for c in counters:
        for k, v in c.items():
            total[k] += v
    return dict(total)


def frozen_kplus(rp):
    return [rp.reach(k) for k in range(1, rp.max_frequency + 1)]

"""C20: the error statistics of a trial are those of the points given."""
import math

import numpy as np

from vf import compat, gen

compat.patch_pandas()

from wfa_planning_evaluation_framework.driver import test_point_aggregator as tpa  # noqa: E402
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint  # noqa: E402

from vf.runner import Check, Sub  # noqa: E402


def _point(d, maxf, big, positive):
    lo = 1 if positive else 0
    k = []
    top = d.int(lo, big)
    for i in range(maxf):
        k.append(top)
        top = d.int(lo, top) if d.bool(0.8) else top
    if d.bool(0.3):
        k = [float(x) for x in k]
        if d.bool(0.6):
            e = d.pick([0.5, 0.25, 0.999])
            k = [x + e for x in k]
    return k


def quantile(values, q):
    """Linear interpolation between order statistics."""
    v = sorted(values)
    pos = q * (len(v) - 1)
    i = int(math.floor(pos))
    j = min(i + 1, len(v) - 1)
    return v[i] + (v[j] - v[i]) * (pos - i)


def mean(v):
    return math.fsum(v) / len(v)


def var(v):
    m = mean(v)
    return math.fsum((x - m) ** 2 for x in v) / len(v)


def shuffle(a, b):
    if len(a) <= 5 or len(b) <= 5:
        return 1.0
    fa = [a[i] - a[i + 1] for i in range(5)]
    fb = [b[i] - b[i + 1] for i in range(5)]
    if sum(fa) == 0 or sum(fb) == 0:
        return 0.5
    return 0.5 * math.fsum(abs(x / sum(fa) - y / sum(fb)) for x, y in zip(fa, fb))


def expected(t, m):
    x, y = [float(k[0]) for k in t], [float(k[0]) for k in m]
    err = [a - b for a, b in zip(x, y)]
    rel = [e / a for e, a in zip(err, x)]
    arel = [abs(r) for r in rel]
    sh = [shuffle(a, b) for a, b in zip(t, m)]
    out = {
        "npoints": len(t),
        "mean_error": mean(err),
        "mean_abs_error": mean([abs(e) for e in err]),
        "mean_squared_error": mean([e * e for e in err]),
        "mean_abs_relative_error": mean(arel),
        "mean_squared_relative_error": mean([r * r for r in rel]),
        "var_error": var(err),
        "var_relative_error": var(rel),
        "mean_shuffle_distance": mean(sh),
        "mean_squared_shuffle_distance": mean([s * s for s in sh]),
        "var_shuffle_distance": var(sh),
        "model_succeeded": 1,
    }
    for q in range(10, 100, 10):
        out[f"relative_error_q{q}"] = quantile(arel, q / 100)
    for k in range(2, 10):
        name = f"mare_freq_at_least_{k}"
        if any(len(z) < k for z in t) or any(len(z) < k for z in m):
            out[name] = float("nan")
        else:
            out[name] = mean([abs(a[k - 1] - b[k - 1]) / a[k - 1] for a, b in zip(t, m)])
    return out


def _case(d):
    n = gen.count(d, 1, 12, 300)
    big = d.pick([10, 1000, 10 ** 6, 3 * 10 ** 9])
    ft = d.pick([1, 3, 6, 7, 9, 10, 12])
    fm = d.pick([ft, ft, 1, 5, 6, 10])
    ragged = d.bool(0.2)
    t = [_point(d, d.int(1, 12) if ragged else ft, big, True) for _ in range(n)]
    m = []
    for k in t:
        if d.bool(0.15) and not ragged:
            m.append(list(k)[:fm] + [k[-1]] * max(0, fm - len(k)))  # a perfect prediction
        else:
            m.append(_point(d, d.int(1, 12) if ragged else fm, big, False))
    return t, m


def stats(d):
    t, m = _case(d)
    d.show({"true": t, "model": m})
    tp = [ReachPoint([10 ** 10], list(k)) for k in t]
    mp = [ReachPoint([10 ** 10], list(k)) for k in m]
    got = tpa.aggregate(tp, mp)
    want = expected(t, m)
    d.eq(len(got), 1, "rows")
    scale = max(k[0] for k in t + m)
    for name, w in want.items():
        d.check(name in got.columns, f"column {name} is missing")
        g = float(got[name][0])
        # variances and mean errors cancel: allow rounding relative to the magnitudes involved
        slack = {"mean_error": 1e-9 * scale, "var_error": 1e-9 * scale ** 2}.get(name, 1e-9)
        if name == "var_relative_error":
            slack = 1e-9 * max(1.0, want["mean_squared_relative_error"])
        d.close(g, w, name, rel=1e-7, abs_=slack)
    d.eq(str(got["model_exception"][0]), "None", "exception of a successful trial")
    # order of the points does not matter
    perm = d.perm(len(t))
    again = tpa.aggregate([tp[i] for i in perm], [mp[i] for i in perm])
    for name in want:
        slack = {"mean_error": 1e-9 * scale, "var_error": 1e-9 * scale ** 2}.get(name, 1e-9)
        if name == "var_relative_error":
            slack = 1e-9 * max(1.0, want["mean_squared_relative_error"])
        d.close(float(again[name][0]), float(got[name][0]), f"{name} after reordering the points", rel=1e-7, abs_=slack)
    # a failed trial has the same columns, in the same order
    msg = d.pick(["boom", "Traceback\n  x, y", ""])
    failed = tpa.aggregate_on_exception(msg)
    d.eq(list(failed.columns), list(got.columns), "columns of a failed trial")
    d.eq(len(failed), 1, "rows of a failed trial")
    d.eq(int(failed["model_succeeded"][0]), 0, "model_succeeded of a failed trial")
    d.eq(str(failed["model_exception"][0]), msg, "exception of a failed trial")
    for name in want:
        if name != "model_succeeded":
            d.check(math.isnan(float(failed[name][0])), f"{name} of a failed trial is {failed[name][0]}")
    # inputs unchanged
    d.eq([[p.reach(k) for k in range(1, p.max_frequency + 1)] for p in tp], [list(k) for k in t], "true points afterwards")
    d.nontrivial(len(t) > 1 and t != m)
    if all(a == b for a, b in zip(t, m)):
        d.label("perfect")


def perfect(d):
    """A model that is right has no error."""
    t, _ = _case(d)
    tp = [ReachPoint([10 ** 10], list(k)) for k in t]
    d.show({"points": t})
    got = tpa.aggregate(tp, [ReachPoint([10 ** 10], list(k)) for k in t])
    for name in got.columns:
        if name in ("npoints", "model_succeeded", "model_exception") or "shuffle" in name:
            continue
        v = float(got[name][0])
        d.check(v == 0 or (math.isnan(v) and name.startswith("mare")), f"{name} of a perfect model is {v}")
    d.nontrivial()


CHECK = Check(
    "C20",
    [Sub("stats", stats, 1500, 30000), Sub("perfect", perfect, 300, 5000)],
    rule="1-12 pairs of true and modelled k+ reaches with 1-12 frequencies (equal, different and ragged lengths, reaches up to 3e9, integer and float); non-trivial: several points that are not predicted perfectly",
    assumptions=["true reaches are positive (relative errors are undefined otherwise)"],
)

"""C29: a trial's row describes that trial and compares its model with the truth at its test points."""
import math
import os

import numpy as np

from vf import trials
from vf.trials import DataDesign

from wfa_planning_evaluation_framework.driver.experiment import Experiment

from vf import gen
from vf.checks.c20 import mean, quantile, shuffle, var
from vf.runner import Check, Sub
from vf.util import scratch


def truth(logs, spends, maxf):
    return gen.kplus(gen.merged([gen.counts_by_spend(e, s) for e, s in zip(logs, spends)]), maxf)


def metrics(t, m):
    """Expected metrics; those dividing by a true reach of 0 are left out."""
    x, y = [float(k[0]) for k in t], [float(k[0]) for k in m]
    err = [a - b for a, b in zip(x, y)]
    sh = [shuffle(a, b) for a, b in zip(t, m)]
    out = {
        "npoints": len(t),
        "mean_error": mean(err),
        "mean_abs_error": mean([abs(e) for e in err]),
        "mean_squared_error": mean([e * e for e in err]),
        "var_error": var(err),
        "mean_shuffle_distance": mean(sh),
        "mean_squared_shuffle_distance": mean([s * s for s in sh]),
        "var_shuffle_distance": var(sh),
        "model_succeeded": 1,
    }
    if all(x):
        rel = [e / a for e, a in zip(err, x)]
        arel = [abs(r) for r in rel]
        out["mean_abs_relative_error"] = mean(arel)
        out["mean_squared_relative_error"] = mean([r * r for r in rel])
        out["var_relative_error"] = var(rel)
        for q in range(10, 100, 10):
            out[f"relative_error_q{q}"] = quantile(arel, q / 100)
    for k in range(2, 10):
        if any(len(z) < k for z in t + m):
            out[f"mare_freq_at_least_{k}"] = None
        elif all(a[k - 1] for a in t):
            out[f"mare_freq_at_least_{k}"] = mean([abs(a[k - 1] - b[k - 1]) / a[k - 1] for a, b in zip(t, m)])
    return out


def trial(d):
    with scratch() as tmp:
        w = trials.world(d, tmp, max_sets=2)
        w.analysis = "single_pub" if w.single and d.bool(0.7) else ""
        d.show({**trials.describe(w), "analysis": w.analysis})
        dd = DataDesign(w.dir)
        name = d.pick(sorted(w.logs))
        logs = w.logs[name]
        p = len(logs)
        tds = trials.descriptors(w)
        i = d.raw(len(tds))
        k = w.specs[i]
        exp = Experiment(os.path.join(tmp, "o", "x"), dd, name, tds, analysis_type=w.analysis)
        todo = exp.generate_trials()
        d.eq(len(todo), len(tds), "trials of an experiment")
        del trials.FITTED[:]
        r = trials.row(todo[i].evaluate(w.seed))
        fr = trials.fractions(k, p)
        own = tds[i].update_from_dataset(dd.by_name(name))
        want = {
            "dataset": name,
            "trial": str(own),
            "replica_id": k["replica"],
            "single_pub_model": "vf_curve",
            "multi_pub_model": "vf_surface",
            "strategy": k["strategy"],
            "liquid_legions_sketch_size": k["sketch"][1],
            "liquid_legions_decay_rate": k["sketch"][0],
            "maximum_reach": len({u for e in logs for u, _ in e}),
            "ncampaigns": p,
            "largest_pub_reach": max(len({u for u, _ in e}) for e in logs),
            "max_frequency": k["maxf"],
            "average_spend_fraction": sum(fr) / p,
            "privacy_budget_epsilon": k["eps"],
            "privacy_budget_delta": k["delta"],
        }
        truth_curves = bool(k["strategy_kwargs"])
        fails = (k["curve_kwargs"].get("fail") and not truth_curves) or (k["surface_kwargs"].get("fail") and p > 1)
        if k["strategy"] == "m3strategy":
            share = (1 + p + (p if p > 2 else 0)) / (2 * p + 1)
        else:
            share = 1.0
        if not fails:
            want["privacy_used_epsilon"] = k["eps"] * share
            want["privacy_used_delta"] = k["delta"] * share
        d.leq(r["privacy_used_epsilon"], k["eps"], "privacy used")
        d.check(r["privacy_mechanisms"], "no privacy mechanism is reported")
        if fails:
            d.eq(r["model_succeeded"], 0.0, "model_succeeded of a failing model")
            d.check(k["curve_kwargs"].get("fail", "?") in r["model_exception"] or k["surface_kwargs"].get("fail", "?") in r["model_exception"], f"exception {r['model_exception']!r}")
            for c in metrics([[1] * 9], [[1] * 9]):
                if c != "model_succeeded":
                    d.eq(r[c], None, f"{c} of a failing model")
        else:
            d.check(r["model_succeeded"] == 1.0, f"the model did not fail, but {r['model_exception']}")
            surface = trials.FITTED[-1] if trials.FITTED else None
            if truth_curves and p == 1:
                model = lambda s, f: truth(logs, s, f)
            else:
                d.check(surface is not None, "no model was fitted")
                model = lambda s, f: trials.kp(surface.by_spend(s, f))
            pts = [list(q) for q in own.experiment_params.generate_test_points(dd.by_name(name), np.random.default_rng(w.seed))]
            t = [truth(logs, q, k["maxf"]) for q in pts]
            want.update(metrics(t, [model(q, k["maxf"]) for q in pts]))
            if any(0 in x for x in t):
                d.label("true reach 0")
        if w.analysis:
            single(d, w, k, logs, r, want, fails, fr)
        for c, x in want.items():
            d.check(c in r, f"column {c} is missing")
            x = trials.norm(x)
            if isinstance(x, float):
                d.check(isinstance(r[c], float), f"{c}: got {r[c]!r}, expected {x!r}")
                d.close(r[c], x, c, rel=1e-7, abs_=1e-7)
            else:
                d.eq(r[c], x, c)
        d.nontrivial(p > 1 or bool(w.analysis))
        d.label(k["strategy"] + ("/truth" if truth_curves else "") + ("/fail" if fails else ""))


def single(d, w, k, logs, r, want, fails, fr):
    spend0 = fr[0] * max(s for _, s in logs[0])
    surface = trials.FITTED[-1]
    for f in [None] + list(range(1, k["maxf"])):
        for j in range(1, 31):
            col = f"relative_error_at_{10 * j:03d}" if f is None else f"freq_{f}_relative_error_at_{10 * j:03d}"
            if fails:
                want[col] = None
                continue
            n = f or 1
            # spends next to an event may fall on either side by rounding of the fraction
            s = spend0 * (j * 0.1)
            if any(abs(s - e) < 1e-9 for _, e in logs[0]):
                d.check(col in r, f"column {col} is missing")
                continue
            x = truth(logs, [s], n)[n - 1]
            y = trials.kp(surface.by_spend([s], n))[n - 1]
            want[col] = abs(x - y) / x if x else None
    if fails:
        want["max_nonzero_frequency_from_halo"] = want["max_nonzero_frequency_from_data"] = None
        return
    halo = trials.kp(surface.given[0])
    want["max_nonzero_frequency_from_halo"] = max([i + 1 for i, v in enumerate(halo) if v != 0] or [0])
    if not any(abs(spend0 - e) < 1e-9 and spend0 != e for _, e in logs[0]):
        x = truth(logs, [spend0], k["maxf"])
        want["max_nonzero_frequency_from_data"] = max([i + 1 for i, v in enumerate(x) if v != 0] or [0])
    d.label("single publisher analysis")


CHECK = Check(
    "C29",
    [Sub("trial", trial, 500, 9000)],
    rule="trials over generated data sets (1-4 publishers), both strategies, ground truth curves, failing models, budgets, maximum frequencies and all test point strategies, with and without single publisher analysis; the row is compared with a brute force truth and the fitted model itself; non-trivial: several publishers or single publisher analysis",
    assumptions=["models are cheap functions of the training points", "relative errors at a true reach of 0 are not compared"],
)

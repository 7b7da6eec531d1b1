"""C26: trial descriptors name trials unambiguously and adapt to a data set without changing."""
import copy
import itertools

import numpy as np

from vf import trials
from vf.trials import ExperimentParameters, LiquidLegionsParameters, PrivacyBudget, SystemParameters, TrialDescriptor, msd

from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.driver import (
    analysis_example_experimental_design,
    m3_first_round_experimental_design,
    sample_experimental_design,
    single_publisher_design,
)
from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonModel
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface
from wfa_planning_evaluation_framework.models.restricted_pairwise_union_reach_surface import (
    RestrictedPairwiseUnionReachSurface,
)
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy

from vf.runner import Check, Sub

SINGLE = {"goerg": GoergModel, "gamma_poisson": GammaPoissonModel, "kinflated_gamma_poisson": KInflatedGammaPoissonModel}
MULTI = {"pairwise_union": PairwiseUnionReachSurface, "restricted_pairwise_union": RestrictedPairwiseUnionReachSurface, "none": None}
STRATEGY = {"m3strategy": M3Strategy, "single_publisher": SinglePublisherStrategy}


def _kwargs(d, keys, lo=0):
    return {k: d.pick([1, 0.5, True, "v", 3.25]) for k in d.subset(keys)}


def _fields(d):
    p = d.int(1, 4)
    f = {
        "strategy": d.pick(["m3strategy", "single_publisher"]),
        "strategy_kwargs": {"use_ground_truth_for_reach_curves": d.bool()} if d.bool(0.3) else {},
        "single": d.pick(sorted(SINGLE)),
        "single_kwargs": _kwargs(d, ["a", "b"]),
        "multi": d.pick(sorted(MULTI)),
        "multi_kwargs": _kwargs(d, ["a", "c"]),
        "fractions": [d.pick([0.1, 0.2, 0.5, 1.0, 0.25]) for _ in range(p)],
        "decay": d.pick([10, 12, 17]),
        "size": d.pick([1000, 100000, 1e5 + 1]),
        "seed": d.pick([1, 1, 2, 30]),
        "eps": d.pick([1.0, 0.1, 0.05, 100]),
        "delta": d.pick([0.0, 1e-7, 1e-9]),
        "replica": d.int(1, 5),
        "maxf": d.int(1, 20),
        "points": d.pick(["grid", "latin_hypercube", "uniformly_random"]),
        "points_kwargs": _kwargs(d, ["npoints", "npublishers"]),
    }
    if "npublishers" in f["points_kwargs"] and d.bool(0.3):
        f["points_kwargs"]["npublishers"] = d.pick([0, 1, None])
    return f


def build(f, gen=None):
    return TrialDescriptor(
        msd.ModelingStrategyDescriptor(f["strategy"], f["strategy_kwargs"], f["single"], f["single_kwargs"], f["multi"], f["multi_kwargs"]),
        SystemParameters(f["fractions"], LiquidLegionsParameters(f["decay"], f["size"], f["seed"]), np.random.default_rng(1), gen),
        ExperimentParameters(PrivacyBudget(f["eps"], f["delta"]), f["replica"], f["maxf"], f["points"], f["points_kwargs"]),
    )


def names(d):
    """Different trials have different names; equal ones the same."""
    a = _fields(d)
    b = copy.deepcopy(a)
    field = d.pick(sorted(a))
    v = a[field]
    if isinstance(v, dict):
        how = d.raw(3)
        if how == 0 and v:
            k = sorted(v)[d.raw(len(v))]
            b[field][k] = str(v[k]) + "1" if isinstance(v[k], (str, bool)) or v[k] is None else v[k] + d.pick([1, 1e-9])
        elif how == 1 and v:
            del b[field][sorted(v)[d.raw(len(v))]]
        else:
            b[field]["z"] = d.pick([0, 1.5, "w"])
    elif isinstance(v, list):
        i = d.raw(len(v))
        how = d.raw(3)
        if how == 0 and len(set(v)) > 1:
            b[field] = d.shuffled(v)
        elif how == 1:
            b[field] = v + [d.pick([0.1, 0.5])]
        else:
            b[field][i] = v[i] + d.pick([1e-9, 0.01, 1.0])
    elif isinstance(v, str):
        other = {"strategy": STRATEGY, "single": SINGLE, "multi": MULTI}.get(field) or ["grid", "latin_hypercube", "uniformly_random"]
        b[field] = d.pick([x for x in sorted(other) if x != v])
    elif field in ("replica", "maxf", "seed"):
        b[field] = v + d.int(1, 99)
    else:
        b[field] = v + d.pick([1e-9, 1, 0.5])
    if a == b:
        d.reject()
    d.show({"a": a, "changed": field, "to": b[field]})
    sa, sb = str(build(a)), str(build(b))
    d.check(sa != sb, f"trials that differ in {field} ({a[field]!r} and {b[field]!r}) have the same name {sa}")
    d.eq(str(build(copy.deepcopy(a))), sa, "name of an equal trial")
    d.check("/" not in sa and "\n" not in sa, f"{sa} cannot be a file name")
    # a name does not depend on having been asked for, or on the state of the random generator
    t = build(a)
    t.system_params.generator.random(3)
    d.eq(str(t), sa, "name after drawing random numbers")
    d.nontrivial()
    d.label(field)


def adapt(d):
    """update_from_dataset fills in the data set and leaves the descriptor alone."""
    f = _fields(d)
    p = d.int(1, 6)
    same = d.bool(0.3)  # the two data sets have the same name
    cost = lambda: d.pick([1.0, 2.0, 2.5, 8.0])
    ds = DataSet([PublisherData([(1, cost())], f"p{i}") for i in range(p)], "ds")
    use = d.bool()
    calls = []
    by_content = d.bool()

    def fractions(x):
        if by_content:
            return [1 / x._data[i].max_spend / (i + 1) for i in range(x.publisher_count)]
        return [0.5 / (i + 1) for i in range(x.publisher_count)]

    def generator(x):
        calls.append(x.publisher_count)
        return fractions(x)

    t = build(copy.deepcopy(f), generator if use else None)
    before = str(t)
    d.show({"descriptor": before, "publishers": p, "generator": use})
    u = t.update_from_dataset(ds)
    d.eq(str(t), before, "name of the descriptor after adapting it")
    want = copy.deepcopy(f)
    if use:
        want["fractions"] = fractions(ds)
        d.eq(set(calls), {p}, "data sets given to the spend function")
    if "npublishers" in f["points_kwargs"]:
        want["points_kwargs"]["npublishers"] = p
    d.eq(str(u), str(build(want)), "name of the adapted descriptor")
    d.eq(list(u.system_params.campaign_spend_fractions), want["fractions"], "spend fractions")
    d.eq(dict(u.experiment_params.test_point_strategy_kwargs), want["points_kwargs"], "test point parameters")
    d.eq(u.experiment_params.privacy_budget, PrivacyBudget(f["eps"], f["delta"]), "budget")
    d.eq(u.system_params.liquid_legions, LiquidLegionsParameters(f["decay"], f["size"], f["seed"]), "sketch parameters")
    # what the caller does to one does not show in the other
    u.experiment_params.test_point_strategy_kwargs["zz"] = 1
    if not use:
        u.system_params.campaign_spend_fractions.append(0.125)
    u.modeling_strategy.single_pub_model_kwargs["zz"] = 1
    d.eq(str(t), before, "name of the descriptor after changing the adapted one")
    # another data set
    q = p if d.bool() else d.int(1, 6)
    ds2 = DataSet([PublisherData([(1, cost())], f"p{i}") for i in range(q)], "ds" if same else "ds2")
    w2 = copy.deepcopy(f)
    if use:
        w2["fractions"] = fractions(ds2)
    if "npublishers" in f["points_kwargs"]:
        w2["points_kwargs"]["npublishers"] = q
    d.eq(str(t.update_from_dataset(ds2)), str(build(w2)), "name of the descriptor adapted to a second data set")
    d.nontrivial(use or "npublishers" in f["points_kwargs"])


def instantiate(d):
    """A descriptor yields the strategy with the models it names."""
    f = _fields(d)
    bad = d.pick([None, None, "strategy", "single", "multi"])
    if bad:
        f[bad] = d.pick(["unknown", "Goerg", ""])
    if f["strategy"] == "single_publisher":
        f["strategy_kwargs"] = {}
    d.show({k: f[k] for k in ("strategy", "strategy_kwargs", "single", "single_kwargs", "multi", "multi_kwargs")})
    m = build(f).modeling_strategy
    if bad:
        d.raises(Exception, m.instantiate_strategy, f"unknown {bad}")
    else:
        s = m.instantiate_strategy()
        d.check(type(s) is STRATEGY[f["strategy"]], f"strategy {type(s)}")
        for attr, want in [
            ("_single_pub_model", SINGLE[f["single"]]),
            ("_single_pub_model_kwargs", f["single_kwargs"]),
            ("_multi_pub_model", MULTI[f["multi"]]),
            ("_multi_pub_model_kwargs", f["multi_kwargs"]),
        ]:
            if hasattr(s, attr):
                d.eq(getattr(s, attr), want, attr)
    d.nontrivial()
    d.label(bad or "known")


DESIGNS = {
    "sample": sample_experimental_design,
    "m3": m3_first_round_experimental_design,
    "analysis": analysis_example_experimental_design,
    "single": single_publisher_design,
}


def shipped(d):
    """The shipped designs: right size, distinct trials, levels covered, deterministic."""
    which = d.pick(sorted(DESIGNS))
    mod = DESIGNS[which]
    seed = d.int(0, 10 ** 6)
    p = {"sample": 2, "single": 1}.get(which) or d.int(1, 8)
    ds = DataSet([PublisherData([(1, 1.0 + i)], f"p{i}") for i in range(p)], "ds")
    d.show({"design": which, "seed": seed, "publishers": p})

    def run():
        np.random.seed(d.raw(1000))
        out = [t.update_from_dataset(ds) for t in mod.generate_experimental_design_config(seed=seed)]
        return out, [str(t) for t in out], [int(t.system_params.generator.integers(10 ** 9)) for t in out[:3]]

    a, na, ga = run()
    _, nb, gb = run()
    d.eq(nb, na, "trials with the same seed")
    d.eq(gb, ga, "random numbers with the same seed")
    for t in a:
        fr = list(t.system_params.campaign_spend_fractions)
        d.eq(len(fr), p, "spend fractions")
        d.check(all(0 < x <= 1 for x in fr), f"spend fractions {fr}")
        d.check(t.experiment_params.privacy_budget.epsilon > 0, "privacy budget")
        next(iter(t.experiment_params.generate_test_points(ds, np.random.default_rng(1))))
        t.modeling_strategy.instantiate_strategy()
    levels = getattr(mod, "LEVELS", None)
    if levels is None:
        return
    if which == "sample":
        n = getattr(mod, "NUM_TRIALS_PER_DATASET", len(a))
        d.eq(len(a), n, "number of trials")
        for key, get in [
            ("replica_ids", lambda t: t.experiment_params.replica_id),
            ("max_frequencies", lambda t: t.experiment_params.max_frequency),
            ("privacy_budgets", lambda t: t.experiment_params.privacy_budget),
            ("modeling_strategies", lambda t: t.modeling_strategy),
        ]:
            for lv in levels[key]:
                c = sum(1 for t in a if get(t) == lv)
                d.check(abs(c - n / len(levels[key])) <= 2, f"level {lv} of {key} is used {c} times")
    else:
        n = 1
        for v in levels.values():
            n *= len(v)
        d.eq(len(a), n, "number of trials")
        if p > 1 or which == "single":
            d.eq(len(set(na)), n, "distinct trials")
    d.nontrivial()
    d.label(which)


CHECK = Check(
    "C26",
    [Sub("names", names, 6000, 60000), Sub("adapt", adapt, 2500, 25000), Sub("instantiate", instantiate, 800, 8000), Sub("shipped", shipped, 40, 400)],
    rule="pairs of trial descriptors that differ in exactly one parameter; descriptors adapted to data sets of 1-6 publishers; known and unknown model names; the four shipped experimental designs for random seeds; non-trivial: the pair differs / something is filled in",
    assumptions=["the random generator is not part of a trial's name"],
)

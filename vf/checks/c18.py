"""C18: synthetic data designs contain exactly the data sets their parameters describe."""
import contextlib
import io
import math
import os

import numpy as np
from absl import flags

from wfa_planning_evaluation_framework.data_generators import (
    analysis_example_data_design,
    lhs_data_design_example,
    m3_data_design,
    simple_data_design_example,
    single_publisher_design,
    synthetic_data_design_generator as sddg,
)
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.data_set_parameters import DataSetParameters, GeneratorParameters
from wfa_planning_evaluation_framework.data_generators.fixed_price_generator import FixedPriceGenerator
from wfa_planning_evaluation_framework.data_generators.heavy_tailed_impression_generator import (
    HeavyTailedImpressionGenerator,
)
from wfa_planning_evaluation_framework.data_generators.heterogeneous_impression_generator import (
    HeterogeneousImpressionGenerator,
)
from wfa_planning_evaluation_framework.data_generators.homogeneous_impression_generator import (
    HomogeneousImpressionGenerator,
)
from wfa_planning_evaluation_framework.data_generators.independent_overlap_data_set import IndependentOverlapDataSet
from wfa_planning_evaluation_framework.data_generators.sequentially_correlated_overlap_data_set import (
    SequentiallyCorrelatedOverlapDataSet,
)
from wfa_planning_evaluation_framework.data_generators.synthetic_data_design_generator import (
    SyntheticDataDesignGenerator,
)

from vf.runner import Check, Sub
from vf.util import scratch, tree

_PENDING = {}

CONFIG = """
from vf.checks import c18
def generate_data_design_config(random_generator):
    return c18.pending(random_generator)
"""


def pending(random_generator):
    return _PENDING["f"](random_generator)


def _gp(d, name, gen, params):
    return GeneratorParameters(name, gen, params)


def _params(d, i):
    imp = d.pick(
        [
            GeneratorParameters("Homogeneous", HomogeneousImpressionGenerator, {"poisson_lambda": d.pick([0.5, 2.0])}),
            GeneratorParameters("Heterogeneous", HeterogeneousImpressionGenerator, {"gamma_shape": 1.0, "gamma_scale": d.pick([0.5, 2.0])}),
            GeneratorParameters("HeavyTailed", HeavyTailedImpressionGenerator, {"zeta_s": 3.5}),
        ]
    )
    price = GeneratorParameters("Fixed", FixedPriceGenerator, {"cost_per_impression": d.pick([0.1, 0.5, 2.0])})
    size = d.int(1, 60)
    over = d.pick(
        [
            GeneratorParameters("FullOverlap", DataSet, {}),
            GeneratorParameters("Independent", IndependentOverlapDataSet, {"universe_size": size + d.pick([0, 5, 100]), "random_generator": d.pick([1, 0, None])}),
            GeneratorParameters(
                "Sequential",
                SequentiallyCorrelatedOverlapDataSet,
                {"order": "original", "correlated_sets": d.pick(["all", "one"]), "shared_prop": d.pick([0.0, 0.5, 1.0]), "random_generator": d.pick([1, 0, None])},
            ),
        ]
    )
    p = d.pick([1, 2, 3, 5])
    ratio = d.pick([1, 0.9, 0.5, 0.1])
    return DataSetParameters(
        name=d.pick(["", "", f"named{i}"]),
        num_publishers=p,
        largest_publisher_size=size,
        largest_to_smallest_publisher_ratio=ratio,
        pricing_generator_params=price,
        impression_generator_params=imp,
        overlap_generator_params=over,
        id=d.pick([str(i), f"copy no. {i}"]),
    )


def sizes(params):
    """None where the floating point rounding of the decay decides between two sizes."""
    n, out = params.largest_publisher_size, []
    p = params.num_publishers
    rate = 1 if p == 1 else params.largest_to_smallest_publisher_ratio ** (1 / float(p - 1))
    for _ in range(p):
        out.append(n)
        x = n * rate
        if rate not in (1, 0.5) and abs(x - round(x)) < 1e-9 * max(1, x):
            return None if len(out) < p else out
        n = math.floor(x)
    return out


def generated(d):
    plist = []
    for i in range(d.int(1, 3)):
        pr = _params(d, i)
        s = sizes(pr)
        if (s and min(s) < 1) or (not s and pr.largest_publisher_size * pr.largest_to_smallest_publisher_ratio < pr.num_publishers + 1):  # a publisher without users cannot be represented
            pr = pr._replace(largest_to_smallest_publisher_ratio=1)
        plist.append(pr)
    seed = d.int(0, 10 ** 6)
    d.show({"parameters": [str(p) for p in plist], "seed": seed})
    seen, base = [], plist

    def provide(g):
        # configurations may use numpy's global generator as well (pyDOE does)
        out = [p._replace(id=p.id + f"-{np.random.randint(10 ** 4)}-{g.integers(10 ** 4)}") for p in base] if draws else list(base)
        seen.append(out)
        return list(out) if d_lazy else iter(out)

    draws = d.bool(0.4)
    d_lazy = d.bool()
    _PENDING["f"] = provide
    with scratch() as tmp:
        cfg = os.path.join(tmp, "config.py")
        with open(cfg, "w") as f:
            f.write(CONFIG)

        def build(where, s):
            np.random.seed(d.raw(1000))
            return SyntheticDataDesignGenerator(os.path.join(tmp, where), cfg, s, False)()

        def build_by_command(where, s):
            """The command line entry point with the same settings."""
            with contextlib.redirect_stdout(io.StringIO()):
                flags.FLAGS(["generator", f"--output_dir={os.path.join(tmp, where)}", f"--data_design_config={cfg}", f"--random_seed={s}", "--noverbose" if d.bool() else "--verbose"])
                sddg.main([])

        design = build("a", seed)
        plist = seen[0]
        names = [str(p) for p in plist]
        d.eq(sorted(design.names), sorted(names), "names of the data sets")
        d.eq(design.count, len(plist), "number of data sets")
        for pr in plist:
            ds = design.by_name(str(pr))
            want = sizes(pr)
            p = pr.num_publishers
            d.eq(ds.publisher_count, p, f"publishers of {pr}")
            pubs = {x.name: x for x in ds._data}
            d.eq(sorted(pubs), sorted(str(k + 1) for k in range(p)), "publisher names")
            for k in range(p):
                pub = pubs[str(k + 1)]
                if want:
                    d.eq(pub.max_reach, want[k], f"size of publisher {k + 1} of {pr}")
                cpi = pr.pricing_generator_params.params["cost_per_impression"]
                d.close(pub.max_spend, pub.max_impressions * cpi, "spend of the publisher", rel=1e-9)
                d.check(pub.max_impressions >= pub.max_reach, "fewer impressions than users")
            over = pr.overlap_generator_params
            if over.name == "FullOverlap" and want:
                d.eq(ds.maximum_reach, max(want), "reach of nested publishers")
            elif over.name == "Independent":
                d.check(ds.maximum_reach <= over.params["universe_size"], "reach above the universe")
            elif want and over.params["shared_prop"] == 0.0:
                d.eq(ds.maximum_reach, sum(want), "reach of disjoint publishers")
            elif want and over.params["shared_prop"] == 1.0 and over.params["correlated_sets"] == "all":
                d.eq(ds.maximum_reach, max(want), "reach of nested publishers")
        first = tree(os.path.join(tmp, "a"))
        (build_by_command if d.bool(0.3) else build)("b", seed)
        d.eq(tree(os.path.join(tmp, "b")), first, "files of a second run with the same seed")
        total = sum(len(t.splitlines()) for t in first.values())
        if total > 60:
            build("c", seed + 1)
            d.check(tree(os.path.join(tmp, "c")) != first, "another seed gives the same files")
        re = DataDesign(os.path.join(tmp, "a"))
        d.eq(sorted(re.names), sorted(names), "names after reopening")
        d.nontrivial(any(p.num_publishers > 1 for p in plist))


def _near(d):
    """A factor other than 1, possibly very close to it."""
    return d.pick([0.5, 1.01, 0.999, 1 + 1e-5, 1 - 1e-7, 1 + 1e-10])


def names(d):
    """Names tell different parameters apart and carry all of them."""
    a = _params(d, 0)._replace(name="", id=d.pick(["0", "", "replica-of-the-first-design-0"]))
    field = d.pick(list(range(7)))
    g = lambda gp, **k: gp._replace(params={**gp.params, **k})
    imp = a.impression_generator_params
    key = sorted(imp.params)[d.raw(len(imp.params))]
    b = [
        a._replace(num_publishers=a.num_publishers + d.int(1, 9)),
        a._replace(largest_publisher_size=a.largest_publisher_size + d.int(1, 100)),
        a._replace(largest_to_smallest_publisher_ratio=a.largest_to_smallest_publisher_ratio * _near(d)),
        a._replace(pricing_generator_params=g(a.pricing_generator_params, cost_per_impression=a.pricing_generator_params.params["cost_per_impression"] * _near(d))),
        a._replace(impression_generator_params=g(imp, **{key: imp.params[key] * _near(d)})),
        a._replace(overlap_generator_params=a.overlap_generator_params._replace(name=a.overlap_generator_params.name + "X")),
        a._replace(id=str(d.int(1, 99)) if d.bool() else "replica-of-the-first-design-" + str(d.int(1, 99))),
    ][field]
    d.show({"a": str(a), "b": str(b)})
    d.check(str(a) != str(b), f"two parameter sets have the same name {a}")
    d.eq(str(a), str(a._replace()), "the name of equal parameters")
    n = a._replace(name="given")
    d.eq(str(n), "given", "a given name")
    d.nontrivial()


DESIGNS = {
    "simple": simple_data_design_example,
    "lhs": lhs_data_design_example,
    "m3": m3_data_design,
    "analysis": analysis_example_data_design,
    "single": single_publisher_design,
}


def shipped(d):
    """The shipped design configurations, for any seed."""
    which = d.pick(["simple", "lhs", "analysis", "single", "m3"])
    mod = DESIGNS[which]
    seed = d.int(0, 10 ** 6)
    d.show({"design": which, "seed": seed})

    def run():
        np.random.seed(seed)
        return list(mod.generate_data_design_config(np.random.default_rng(seed)))

    a, b = run(), run()
    d.eq([str(x) for x in b], [str(x) for x in a], "design with the same seed")
    d.eq(len({str(x) for x in a}), len(a), "distinct names")
    for x in a:
        d.check(isinstance(x, DataSetParameters), "type of the parameters")
        s = sizes(x)
        d.check(not s or min(s) >= 1, f"a publisher without users in {x}")
        over = x.overlap_generator_params
        if over.name == "Independent":
            d.check(over.params["universe_size"] >= x.largest_publisher_size, f"universe smaller than the largest publisher in {x}")
            d.check(set(over.params) == {"universe_size", "random_generator"}, f"parameters {over.params}")
    if hasattr(mod, "LEVELS"):
        for key, levels in mod.LEVELS.items():
            got = [getattr(x, key) for x in a]
            if key == "overlap_generator_params":
                d.check({g.name for g in got} <= {v.name for v in levels}, f"levels of {key}")
                continue
            d.check(all(g in levels for g in got), f"levels of {key}")
            if which in ("lhs", "m3"):
                # latin hypercube: every level is used equally often, up to one stratum at each end
                for lv in range(len(levels)):
                    n = sum(1 for g in got if levels.index(g) == lv)
                    if levels.count(levels[lv]) == 1:
                        d.check(abs(n - len(got) / len(levels)) <= 2, f"level {lv} of {key} is used {n} times in {len(got)} samples")
            else:
                for lv in levels:
                    d.eq(sum(1 for g in got if g == lv), len(got) // len(levels), f"use of level {lv} of {key}")
    d.nontrivial()
    d.label(which)


CHECK = Check(
    "C18",
    [Sub("generated", generated, 640, 6000), Sub("names", names, 4000, 32000), Sub("shipped", shipped, 60, 600)],
    rule="designs of 1-3 random parameter sets (publishers, sizes, ratios, impression, price and overlap generators, given or derived names) generated twice into scratch directories; pairs of parameter sets that differ in one field; the five shipped design configurations for random seeds; non-trivial: a data set of several publishers (generated)",
    assumptions=["the set generators are stand-ins for the cardinality-estimation package", "where rounding of the size decay decides between two sizes, the size is not checked"],
)

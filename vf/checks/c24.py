"""C24: an experimental design evaluates every trial once, the same way however it is run."""
import os

import numpy as np

from vf import trials
from vf.trials import DataDesign

import apache_beam
from apache_beam.options.pipeline_options import PipelineOptions

from wfa_planning_evaluation_framework.driver.experimental_design import ExperimentalDesign
from wfa_planning_evaluation_framework.driver.experiment_driver import ExperimentDriver

from vf.runner import Check, Sub
from vf.util import scratch


def _expected_trials(w):
    """{(data set, trial name)}: every descriptor for every data set, once."""
    out = []
    for name, logs in w.logs.items():
        for td in trials.descriptors(w):
            k = DataDesign(w.dir).by_name(name)
            t = (name, str(td.update_from_dataset(k)))
            if t not in out:
                out.append(t)
    return out


def _frame(d, frame, what):
    rows = [trials.row(frame, i) for i in range(len(frame))]
    keyed = {}
    for r in rows:
        key = (r["dataset"], r["trial"])
        d.check(key not in keyed, f"{what}: two rows for {key}")
        keyed[key] = r
    return keyed


def _run(w, where, order=None, cores=1, beam=False, analysis=None):
    opts = PipelineOptions([f"--temp_location={where}"])
    ed = ExperimentalDesign(
        os.path.join(where, "x"), DataDesign(w.dir), trials.descriptors(w, order), seed=w.seed, cores=cores, analysis_type=w.analysis if analysis is None else analysis
    )
    return ed.load(use_apache_beam=beam, pipeline_options=opts)


def _compare(d, got, want, what):
    d.eq(sorted(got), sorted(want), f"trials of {what}")
    for k in want:
        trials.same_row(d, got[k], want[k], f"{k} in {what}")


def _world(d, tmp):
    w = trials.world(d, tmp)
    w.analysis = "single_pub" if w.single and d.bool() else ""
    if d.bool(0.4):  # the same trial twice
        w.specs.append(dict(w.specs[d.raw(len(w.specs))]))
    d.show({**trials.describe(w), "analysis": w.analysis})
    return w


def modes(d):
    """Serial, resumed, reordered and Beam runs agree trial by trial."""
    with scratch() as tmp:
        w = _world(d, tmp)
        want_trials = _expected_trials(w)
        os.makedirs(f"{tmp}/a")
        del trials.FITTED[:]
        first = _frame(d, _run(w, f"{tmp}/a"), "serial run")
        d.eq(sorted(first), sorted(want_trials), "trials evaluated")
        kind = d.pick(["resume", "reorder", "beam", "again"] + (["analysis"] * 2 if w.single else []))
        if kind == "again":
            n = len(trials.FITTED)
            again = _frame(d, _run(w, f"{tmp}/a"), "second run")
            d.eq(len(trials.FITTED), n, "models fitted by a second run")
            _compare(d, again, first, "a second run in the same directory")
        elif kind == "analysis":
            # the directory has results of the other type of analysis
            os.makedirs(f"{tmp}/b")
            other = "" if w.analysis else "single_pub"
            before = _frame(d, _run(w, f"{tmp}/b", analysis=other), "other analysis")
            what = f"a run with analysis {w.analysis!r} after one with {other!r}"
            _compare(d, _frame(d, _run(w, f"{tmp}/b"), what), first, what)
            if d.bool():
                what = f"a run with analysis {other!r} after one with {w.analysis!r}"
                _compare(d, _frame(d, _run(w, f"{tmp}/b", analysis=other), what), before, what)
        elif kind == "resume":
            # an interrupted run left some of the results
            for root, _, files in os.walk(f"{tmp}/a/x"):
                for f in sorted(files):
                    if d.bool():
                        os.unlink(os.path.join(root, f))
            _compare(d, _frame(d, _run(w, f"{tmp}/a"), "resumed"), first, "a resumed run")
        elif kind == "reorder":
            os.makedirs(f"{tmp}/b")
            order = d.perm(len(w.specs))
            _compare(d, _frame(d, _run(w, f"{tmp}/b", order), "reordered"), first, "a run in another order")
        else:
            os.makedirs(f"{tmp}/b")
            apache_beam.COMBINE_BUNDLE_SIZE = d.pick([1, 2, 3, 100])
            _compare(d, _frame(d, _run(w, f"{tmp}/b", beam=True), "Beam"), first, "a run with Beam")
        d.label(kind)
        d.nontrivial(len(want_trials) > 1)


def parallel(d):
    with scratch() as tmp:
        w = _world(d, tmp)
        os.makedirs(f"{tmp}/a")
        os.makedirs(f"{tmp}/b")
        first = _frame(d, _run(w, f"{tmp}/a"), "serial run")
        cores = d.pick([2, 3, 0])
        got = _frame(d, _run(w, f"{tmp}/b", cores=cores), "parallel run")
        _compare(d, got, first, f"a run on {cores} cores")
        d.nontrivial(len(first) > 1)


CONFIG = """
from vf.checks import c24
def generate_experimental_design_config(seed=1):
    return c24.config(seed)
"""
_PENDING = {}


def config(seed):
    _PENDING["seed"] = seed
    return iter(trials.descriptors(_PENDING["w"]))


def driver(d):
    """The driver writes one row per trial to the output file."""
    import pandas as pd

    with scratch() as tmp:
        w = _world(d, tmp)
        _PENDING["w"] = w
        os.makedirs(f"{tmp}/a")
        first = _frame(d, _run(w, f"{tmp}/a"), "design")
        with open(f"{tmp}/config.py", "w") as f:
            f.write(CONFIG)
        os.makedirs(f"{tmp}/b/x")
        drv = ExperimentDriver(w.dir, f"{tmp}/config.py", f"{tmp}/out.csv", f"{tmp}/b/x", w.seed, 1, w.analysis)
        beam = d.bool(0.3)
        if beam:
            result = drv.execute(True, PipelineOptions([f"--temp_location={tmp}/b"]))
        else:
            result = drv.execute()
        d.eq(_PENDING.get("seed"), w.seed, "seed given to the experimental design")
        _compare(d, _frame(d, result, "driver"), first, "the driver's result")
        out = pd.read_csv(f"{tmp}/out.csv")
        _compare(d, _frame(d, out, "output file"), first, "the output file")
        d.nontrivial(len(first) > 1)


CHECK = Check(
    "C24",
    [Sub("modes", modes, 260, 5000), Sub("parallel", parallel, 24, 400), Sub("driver", driver, 80, 1500)],
    rule="data designs of 1-3 data sets with 1-4 publishers and 1-4 trial descriptors (duplicates, failing models, own and shared random generators, all test point strategies), run serially, on several processes, with Beam bundles of any size, reordered, resumed after losing any subset of the results, and through the driver; non-trivial: several trials",
    assumptions=["models are cheap deterministic functions of the training points, so that a difference in any noise value shows", "Beam is an in-process stand-in"],
)

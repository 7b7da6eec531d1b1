"""C23: an interrupted trial can be re-run: same result, nothing stale, nothing recomputed needlessly."""
import glob
import os

import numpy as np

from vf import trials
from vf.trials import DataDesign

from wfa_planning_evaluation_framework.driver.experiment import Experiment
from wfa_planning_evaluation_framework.filesystem_wrappers import filesystem_pathlib_wrapper

from vf.runner import Check, Sub
from vf.util import scratch, tree


class Crash(BaseException):
    """The process dies here."""


class Faulty(filesystem_pathlib_wrapper.FilesystemPathlibWrapper):
    """Counts file operations; dies at the one given, before, in the middle of, or after it."""

    def __init__(self, at=None, how="before", fraction=0.5):
        super().__init__()
        self.at, self.how, self.fraction = at, how, fraction
        self.n = 0
        self.ops = []


def _wrap(name):
    base = getattr(filesystem_pathlib_wrapper.FilesystemPathlibWrapper, name)

    def op(self, *args, **kwargs):
        k = self.n
        self.n += 1
        self.ops.append(name)
        hit = k == self.at
        if hit and self.how == "before":
            raise Crash()
        if hit and self.how == "middle" and name == "write_text":
            data = kwargs.pop("data", None)
            args = list(args)
            if data is None:
                data = args.pop(1)
            base(self, *args, data=data[: int(len(data) * self.fraction)], **kwargs)
            raise Crash()
        r = base(self, *args, **kwargs)
        if hit:
            raise Crash()
        return r

    return op


for _name in ("open", "write_text", "mkdir", "unlink", "is_file", "exists"):
    if hasattr(filesystem_pathlib_wrapper.FilesystemPathlibWrapper, _name):
        setattr(Faulty, _name, _wrap(_name))


def _world(d, tmp):
    w = trials.world(d, tmp, max_sets=1, max_pubs=2, max_desc=1)
    w.analysis = "single_pub" if w.single and d.bool(0.4) else ""
    w.name = list(w.logs)[0]
    return w


def _trial(w, where):
    return Experiment(os.path.join(where, "x"), DataDesign(w.dir), w.name, trials.descriptors(w), analysis_type=w.analysis).generate_trials()[0]


def _pending(where):
    return [p for p in glob.glob(os.path.join(where, "pending", "*")) if os.path.isfile(p)]


def _result_file(where):
    return [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(where, "x")) for f in fs]


def _reference(d, w, tmp):
    os.makedirs(f"{tmp}/ref")
    seen = []
    trials.ON_FIT.append(lambda m: seen.append([open(p).read() for p in _pending(f"{tmp}/ref")]))
    try:
        r = _trial(w, f"{tmp}/ref").evaluate(w.seed)
    finally:
        trials.ON_FIT.pop()
    d.eq(len(r), 1, "rows of a trial")
    name = str(_trial(w, f"{tmp}/ref")._trial_descriptor) if hasattr(_trial(w, f"{tmp}/ref"), "_trial_descriptor") else None
    for texts in seen:
        d.eq(len(texts), 1, "pending entries while a trial is running")
        d.check(w.name in texts[0] and (name is None or name in texts[0]), "the pending entry does not say what is running")
    d.eq(_pending(f"{tmp}/ref"), [], "pending entries after a trial")
    files = _result_file(f"{tmp}/ref")
    d.eq(len(files), 1, "result files")
    with open(files[0]) as f:
        text = f.read()
    return trials.row(r), os.path.relpath(files[0], f"{tmp}/ref"), text


def _recovered(d, w, where, want, rel, text, what):
    got = _trial(w, where).evaluate(w.seed)
    d.eq(len(got), 1, f"rows {what}")
    trials.same_row(d, trials.row(got), want, f"the result {what}")
    d.eq([os.path.relpath(p, where) for p in _result_file(where)], [rel], f"result files {what}")
    with open(os.path.join(where, rel)) as f:
        d.eq(f.read(), text, f"result file {what}")
    # the next evaluation is served from the file
    m = len(trials.FITTED)
    again = _trial(w, where).evaluate(w.seed)
    d.eq(len(trials.FITTED), m, f"models fitted for a finished trial {what}")
    trials.same_row(d, trials.row(again), want, f"the stored result {what}")


def crash(d):
    """Die at any file operation, or while fitting; then run again."""
    with scratch() as tmp:
        w = _world(d, tmp)
        want, rel, text = _reference(d, w, tmp)
        counting = Faulty()
        os.makedirs(f"{tmp}/count")
        _trial(w, f"{tmp}/count").evaluate(w.seed, counting)
        n = counting.n
        at = d.raw(n + 1)
        how = d.pick(["before", "middle", "after"])
        frac = d.unit()
        where = f"{tmp}/run"
        os.makedirs(where)
        times = d.int(1, 2)
        d.show({**trials.describe(w), "operation": at if at < n else "fit", "of": counting.ops, "how": how, "fraction": frac, "crashes": times})
        for _ in range(times):
            if at == n:  # while fitting

                def die(m):
                    raise Crash()

                trials.ON_FIT.append(die)
                try:
                    _trial(w, where).evaluate(w.seed)
                except Crash:
                    d.nontrivial()
                finally:
                    trials.ON_FIT.pop()
            else:
                try:
                    _trial(w, where).evaluate(w.seed, Faulty(at, how, frac))
                except Crash:
                    d.nontrivial()
            at, how = d.raw(n + 1), d.pick(["before", "middle", "after"])
        _recovered(d, w, where, want, rel, text, "after a crash")
        d.label(counting.ops[at] if at < n else "fit")


def truncated(d):
    """The result file ends anywhere: every position for a small file, sampled for larger ones."""
    with scratch() as tmp:
        w = _world(d, tmp)
        want, rel, text = _reference(d, w, tmp)
        where = f"{tmp}/run"
        os.makedirs(os.path.dirname(os.path.join(where, rel)))
        lines = [i + 1 for i, c in enumerate(text) if c == "\n"]
        commas = [i for i, c in enumerate(text) if c == ","]
        cuts = {0, len(text) - 1, d.raw(len(text)), d.pick(lines), d.pick(lines) - 1, d.pick(commas), d.pick(commas) + 1}
        d.show({**trials.describe(w), "cuts": sorted(cuts), "size": len(text)})
        for cut in sorted(cuts):
            if cut >= len(text):
                continue
            with open(os.path.join(where, rel), "w") as f:
                f.write(text[:cut])
            _recovered(d, w, where, want, rel, text, f"after the file was cut at {cut} of {len(text)}")
            d.eq(_pending(where), [], "pending entries")
        d.nontrivial()
        d.label("failed model" if want["model_succeeded"] == 0.0 else "model")


def unrelated(d):
    """A stored result is returned unchanged, and belongs to its trial only."""
    with scratch() as tmp:
        w = _world(d, tmp)
        want, rel, text = _reference(d, w, tmp)
        before = tree(f"{tmp}/ref")
        n = len(trials.FITTED)
        trials.same_row(d, trials.row(_trial(w, f"{tmp}/ref").evaluate(w.seed)), want, "the stored result")
        d.eq(len(trials.FITTED), n, "models fitted for a finished trial")
        # another trial in the same directory does not get this result
        w2 = w
        spec = dict(w.specs[0])
        field = d.pick(["eps", "maxf", "replica", "fraction", "points", "sketch"])
        spec[field] = {
            "eps": spec["eps"] * 2,
            "maxf": spec["maxf"] + 1,
            "replica": spec["replica"] + 1,
            "fraction": spec["fraction"] / 2,
            "points": ("grid", {"grid_size": 7}),
            "sketch": (spec["sketch"][0] + 1, spec["sketch"][1]),
        }[field]
        w2.specs = [spec]
        d.show({**trials.describe(w2), "changed": field})
        other = trials.row(_trial(w2, f"{tmp}/ref").evaluate(w.seed))
        os.makedirs(f"{tmp}/alone")
        alone = trials.row(_trial(w2, f"{tmp}/alone").evaluate(w.seed))
        trials.same_row(d, other, alone, f"a trial that differs in {field}")
        after = tree(f"{tmp}/ref")
        for f, t in before.items():
            d.eq(after.get(f), t, f"the stored result {f}")
        d.nontrivial()


CHECK = Check(
    "C23",
    [Sub("crash", crash, 260, 6000), Sub("truncated", truncated, 110, 2500), Sub("unrelated", unrelated, 110, 2000)],
    rule="a trial (1-2 publishers, succeeding or failing model, with and without single publisher analysis) killed once or twice before, in the middle of or after any of its file operations or during a fit, or whose result file is cut at any position, is run again; non-trivial: the injected crash happened",
    assumptions=["a crash is modelled as an exception no code catches, raised at a file operation; a torn write leaves a prefix"],
    level="fault_enumeration",
)

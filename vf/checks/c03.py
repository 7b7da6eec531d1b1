"""C03: data sets and data designs survive being written and read back."""
import io
import os

from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper

from vf import gen
from vf.runner import Check, Sub
from vf.util import scratch, tree

NAMES = ["a", "b", "P=1,N=10(x=0.1)", "ds 2", "3.5", "Z", "z9", "10", "2", "d_e-f"]
PUB_NAMES = ["1", ".hidden", "2", "10", "p", "P", "x.csv", "a,b", "pub 3", "_"]


class Elsewhere(FilesystemPathlibWrapper):
    """A file system of its own: its paths start with "vfs:", and nothing else knows them."""

    def _real(self, path):
        path = str(path)
        if not path.startswith("vfs:/"):
            raise FileNotFoundError(f"{path} is not a path of this file system")
        return path[4:]

    def glob(self, path, pattern):
        for p in super().glob(self._real(path), pattern):
            yield "vfs:" + p

    def open(self, path, *a, **kw):
        return super().open(self._real(path), *a, **kw)

    def write_text(self, path, *a, **kw):
        return super().write_text(self._real(path), *a, **kw)

    def mkdir(self, path, *a, **kw):
        return super().mkdir(self._real(path), *a, **kw)

    def unlink(self, path, *a, **kw):
        return super().unlink(self._real(path), *a, **kw)

    def exists(self, path):
        return super().exists(self._real(path))

    def is_dir(self, path):
        return super().is_dir(self._real(path))

    def is_file(self, path):
        return super().is_file(self._real(path))


def awkward_events(d, hi=12):
    evs = gen.events(d, hi=hi, ids=d.pick([3, 9, 10 ** 15]))
    if d.bool(0.4):
        vals = [0.1 + 0.2, 1e-17, 1e22, 1 / 3.0, 123456789.123456789, 5e-324, 1e16 + 2.0, 0.0]
        evs = [(i, vals[d.raw(len(vals))] if d.bool(0.5) else s) for i, s in evs]
    return evs


def make(d, name, max_pubs=4):
    names = d.shuffled(PUB_NAMES)[: d.size(1, max_pubs)]
    if d.bool(0.02):
        names += [f"publisher {i}" for i in range(d.int(5, 60))]
    logs = {n: awkward_events(d, 12 if len(names) < 9 else 3) for n in names}
    if d.bool(gen.MANY):
        logs[names[0]] = gen.many_events(d, 3000)
    return logs, DataSet([PublisherData(list(e), n) for n, e in logs.items()], name)


def parse(text):
    out = []
    for line in text.split("\n"):
        if line:
            i, s = line.split(",")
            out.append((int(i), float(s)))
    return out


def same_events(d, got, want, what):
    d.eq(sorted(got), sorted(want), what)


def agree(d, ds, logs, what):
    """A data set read from disk answers like the logs (publishers by sorted name)."""
    order = sorted(logs)
    d.eq(ds.publisher_count, len(logs), what + ": publisher_count")
    d.eq(ds.maximum_reach, len({i for e in logs.values() for i, _ in e}), what + ": maximum_reach")
    for _ in range(2):
        q = [gen.query_spends(d, logs[n], 1)[0] for n in order]
        per = [gen.counts_by_spend(logs[n], s) for n, s in zip(order, q)]
        rp = ds.reach_by_spend(q, 5)
        d.eq(gen.frozen_kplus(rp), gen.kplus(gen.merged(per), 5), f"{what}: reach at {q}")
        d.eq(list(rp.impressions), [sum(c.values()) for c in per], f"{what}: impressions at {q}")
        d.eq(list(ds.impressions_by_spend(q)), [sum(c.values()) for c in per], f"{what}: impressions_by_spend {q}")


def file_level(d):
    """write_publisher_data / read_publisher_data on text files."""
    evs = awkward_events(d, hi=30)
    p = PublisherData(list(evs), "p")
    f = io.StringIO()
    p.write_publisher_data(f)
    text = f.getvalue()
    d.show({"events": evs})
    same_events(d, parse(text), evs, "events in the written file")
    d.check(all(line.count(",") == 1 for line in text.splitlines()), "lines of the form id,spend")
    # any order of lines is accepted
    lines = text.splitlines(True)
    shuffled = d.shuffled(lines)
    if d.bool(0.3):
        shuffled[-1] = shuffled[-1].rstrip("\n")
    q = PublisherData.read_publisher_data(io.StringIO("".join(shuffled) if d.bool() else text))
    d.eq(q.max_impressions, len(evs), "max_impressions")
    for s in gen.query_spends(d, evs, 4):
        want = gen.counts_by_spend(evs, s)
        d.eq(dict(q.user_counts_by_spend(s)), want, f"user counts at {s!r} after the round trip")
        d.eq(q.impressions_by_spend(s), sum(want.values()), f"impressions at {s!r} after the round trip")
    g = io.StringIO()
    q.write_publisher_data(g)
    same_events(d, parse(g.getvalue()), evs, "events after a second round trip")
    d.nontrivial(len(evs) > 2)


BAD_LINES = ["7", "7,1,2", "x,1.0", "7,abc", ",", "7,", ",3", "1.5,2", "", "7;2", "7,1,"]


def malformed(d):
    """A malformed line is rejected with its position; nothing is guessed."""
    evs = gen.events(d, hi=8)
    lines = [f"{i},{s}" for i, s in evs]
    pos = d.int(0, len(lines))
    bad = d.pick(BAD_LINES)
    lines.insert(pos, bad)
    text = "\n".join(lines) + "\n"
    d.show({"line": pos + 1, "bad": bad, "text": text})
    d.raises(
        RuntimeError,
        lambda: PublisherData.read_publisher_data(io.StringIO(text)),
        f"malformed line {bad!r} as line {pos + 1}",
        match=f"At line {pos + 1}:",
    )
    with scratch() as tmp:
        logs, ds = make(d, "set", 3)
        ds.write_data_set(tmp)
        victim = d.pick(sorted(logs))
        path = os.path.join(tmp, "set", victim)
        with open(path, "w") as f:
            f.write(text if d.bool(0.8) else "")
        d.raises(RuntimeError, lambda: DataSet.read_data_set(os.path.join(tmp, "set")), f"a data set with a malformed file {victim!r}", match=victim)
    d.nontrivial(pos > 0)


def design(d):
    """Stateful: a design directory against a dictionary model."""
    with scratch() as tmp:
        root = os.path.join(tmp, "design", "deep") if d.bool() else os.path.join(tmp, "design")
        fs = Elsewhere() if d.bool(0.3) else None
        d.label("own file system" if fs else "default file system")
        os.chdir(tmp)  # whatever escapes the file system given lands here

        def opened():
            return DataDesign("vfs:" + root, filesystem=fs) if fs else DataDesign(root)

        design = opened()
        model = {}
        ops = []
        interesting = 0
        for step in range(d.int(3, 10)):
            op = d.weighted([(4, "add"), (2, "dup"), (3, "read"), (2, "reopen"), (2, "copy"), (1, "junk"), (1, "dir")])
            ops.append(op)
            if op == "add":
                free = [n for n in NAMES if n not in model]
                name = d.pick(free)
                logs, ds = make(d, name)
                design.add(ds)
                model[name] = logs
            elif op == "dup" and model:
                name = d.pick(sorted(model))
                _, ds = make(d, name)
                before = tree(root)
                d.raises(ValueError, lambda: design.add(ds), f"adding a second data set named {name!r}")
                d.eq(tree(root), before, "files after a refused add")
                interesting += 1
            elif op == "read" and model:
                name = d.pick(sorted(model))
                ds = design.by_name(name)
                d.eq(ds.name, name, "name of a data set read back")
                agree(d, ds, model[name], f"{name!r} read back")
            elif op == "reopen":
                design = opened()
                interesting += 1
            elif op == "copy" and model:
                # read a data set and write it elsewhere: a faithful copy, source untouched
                name = d.pick(sorted(model))
                before = tree(root)
                if fs:
                    ds = DataSet.read_data_set(os.path.join("vfs:" + root, name), fs)
                else:
                    ds = DataSet.read_data_set(os.path.join(root, name))
                dest = os.path.join(tmp, f"copy{step}")
                sub = d.pick([None, "other"])
                ds.write_data_set(dest, sub) if sub else ds.write_data_set(dest)
                if d.bool(0.4):
                    # writing the same data set once more over itself changes nothing
                    once = tree(dest)
                    ds.write_data_set(dest, sub) if sub else ds.write_data_set(dest)
                    d.eq(tree(dest), once, "files after writing the same data set twice")
                d.eq(tree(root), before, "the source design after writing a copy elsewhere")
                got = tree(os.path.join(dest, sub or name))
                d.eq(sorted(got), sorted(model[name]), "publisher files of the copy")
                for n, text in got.items():
                    same_events(d, parse(text), model[name][n], f"events of {n!r} in the copy")
                interesting += 1
            elif op == "junk":
                # plain files next to the data sets are not data sets
                with open(os.path.join(root, f"README{step}.txt"), "w") as f:
                    f.write("not a data set")
                design = opened()
            elif op == "dir" and model:
                # a directory inside a data set is not a publisher
                name = d.pick(sorted(model))
                os.makedirs(os.path.join(root, name, f"sub{step}"), exist_ok=True)
            d.eq(design.count, len(model), f"count after {ops}")
            d.eq(list(design.names), sorted(model), f"names after {ops}")
        files = tree(root)
        for name, logs in model.items():
            for n, evs in logs.items():
                key = os.path.join(name, n)
                d.check(key in files, f"file of publisher {n!r} of {name!r} is missing")
                same_events(d, parse(files[key]), evs, f"events stored for {n!r} of {name!r}")
        final = opened()
        d.eq(list(final.names), sorted(model), "names after a final reopen")
        for name in model:
            agree(d, final.by_name(name), model[name], f"final read of {name!r}")
        d.check(not os.path.exists(os.path.join(tmp, "vfs:")), "files were written outside the file system given")
        d.show({"ops": ops, "sets": {k: list(v) for k, v in model.items()}})
        for o in ops:
            d.label(o)
        d.nontrivial(interesting >= 2 and len(model) >= 1)


def rewritten(d):
    """Reading gives what was written last, also to a place that was read before."""
    with scratch() as tmp:
        os.chdir(tmp)
        fs = Elsewhere() if d.bool(0.3) else None
        parent = ("vfs:" if fs else "") + os.path.join(tmp, "sets")
        model, ops = {}, []
        reread = 0
        for _ in range(d.int(2, 7)):
            if not model or d.bool(0.5):
                where = d.pick(["one", "two"])
                logs, ds = make(d, where, 3)
                named = d.bool()
                kw = {"filesystem": fs} if fs else {}
                if named:
                    ds.write_data_set(parent, **kw)
                else:
                    ds.write_data_set(parent, where, **kw)
                reread += where in model
                model.setdefault(where, {}).update(logs)  # files of other publishers stay
                ops.append(("write", where, logs))
            else:
                where = d.pick(sorted(model))
                ops.append(("read", where))
                path = os.path.join(parent, where)
                ds = DataSet.read_data_set(path, fs) if fs else DataSet.read_data_set(path)
                d.show(ops)
                agree(d, ds, model[where], f"{where!r} read back")
                d.eq(ds.name, where, "name")
        d.nontrivial(reread)


def universe(d):
    """The universe size of a data set that has one of its own (not the default)."""
    with scratch() as tmp:
        os.chdir(tmp)
        names = d.shuffled(PUB_NAMES)[: d.size(1, 3)]
        logs = {n: awkward_events(d) for n in names}
        reach = len({i for e in logs.values() for i, _ in e})
        size = d.pick([None, reach, reach + d.int(1, 1000), 10 ** 9])
        ds = DataSet([PublisherData(list(e), n) for n, e in logs.items()], "set", **({"universe_size": size} if size else {}))
        size = ds.universe_size
        ds.write_data_set(tmp)
        got = DataSet.read_data_set(os.path.join(tmp, "set")).universe_size
        d.show({"logs": logs, "universe": size})
        d.nontrivial(size != 2 * reach)
        d.check(got == size, f"universe size {size} comes back as {got}", key="universe-size-lost" if got == 2 * reach else None)


CHECK = Check(
    "C03",
    [
        Sub("file_level", file_level, 10000, 80000),
        Sub("malformed", malformed, 3000, 24000),
        Sub("rewritten", rewritten, 1500, 15000),
        Sub("universe", universe, 300, 3000),
        Sub("design", design, 2400, 19200),
    ],
    rule="random event logs with awkward floats and ids written and read back; malformed lines of 11 kinds at random positions; random histories of add / duplicate add / read / reopen / copy elsewhere / stray files on a design directory against a dictionary model; non-trivial: more than two events (file_level), the bad line is not the first (malformed), at least two of reopen, duplicate and copy with a data set present (design)",
    assumptions=["publisher names are distinct within a data set and valid file names; publishers of a data set read from disk come in the order of their file names"],
)

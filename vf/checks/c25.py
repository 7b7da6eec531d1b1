"""C25: local and cloud storage behave alike for everything the framework does with files."""
import contextlib
import fnmatch
import os
import posixpath
import shutil
import warnings

warnings.filterwarnings("ignore")

import cloudpathlib.local  # noqa: E402

from vf import trials  # noqa: E402
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign  # noqa: E402
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet  # noqa: E402
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData  # noqa: E402
from wfa_planning_evaluation_framework.driver.experiment import Experiment  # noqa: E402
from wfa_planning_evaluation_framework.filesystem_wrappers import (  # noqa: E402
    filesystem_cloudpath_wrapper,
    filesystem_pathlib_wrapper,
)

from vf import gen  # noqa: E402
from vf.runner import Check, Sub  # noqa: E402
from vf.util import scratch  # noqa: E402


class Cloud(filesystem_cloudpath_wrapper.FilesystemCloudpathWrapper):
    def set_default_client_to_gs_client(self):
        """There is no network: the default client is the local stand-in."""


@contextlib.contextmanager
def cloud(tmp):
    """A bucket in a scratch directory (the stand-in of cloudpathlib, as the repository's tests use it)."""
    storage, cache = os.path.join(tmp, "storage"), os.path.join(tmp, "cache")
    os.makedirs(storage)
    os.makedirs(cache)
    # the stand-in, unlike a bucket, cannot list a prefix that has no object yet
    os.makedirs(os.path.join(storage, "bucket", "dir", "dd"))
    os.makedirs(os.path.join(storage, "bucket", "dd"))
    client = cloudpathlib.local.LocalGSClient(local_storage_dir=storage, local_cache_dir=cache)
    old = filesystem_cloudpath_wrapper.CloudPath
    old_default = getattr(cloudpathlib.local.LocalGSClient, "_default_client", None)
    client.set_as_default_client()
    filesystem_cloudpath_wrapper.CloudPath = cloudpathlib.local.LocalGSPath
    try:
        yield Cloud()
    finally:
        filesystem_cloudpath_wrapper.CloudPath = old
        cloudpathlib.local.LocalGSClient._default_client = old_default


NAMES = ["a", "b", "x.csv", "data set", "k=v,(1)", "été", "a.b", "A"]


def _text(d):
    return d.pick(["", "1,2\n", "x\ny\n", "é∑\n", "a" * d.int(1, 3000), " lead\n\n"])


def _run(op):
    """-> ("ok", value) or ("error", kind)."""
    try:
        return ("ok", op())
    except FileNotFoundError:
        return ("error", "FileNotFoundError")


def history(d):
    """Operations on both kinds of storage against a dictionary of files."""
    with scratch() as tmp, cloud(tmp) as cfs:
        lfs = filesystem_pathlib_wrapper.FilesystemPathlibWrapper()
        lroot, croot = os.path.join(tmp, "local"), "gs://bucket"
        both = [("local", lfs, lroot), ("cloud", cfs, croot)]
        model = {}  # path -> bytes
        enc = {}
        touched = set()  # directories that ever existed
        log = []
        # a fixed set of paths, none being a prefix of another's file
        dirs = ["d1", "d1/sub", "d 2"]
        paths = [f"{x}/{n}" for x in dirs for n in d.pick([NAMES[:3], NAMES[3:6], NAMES[5:]])]
        # files and directories never share a name
        for step in range(d.int(3, 14)):
            # every step comes from another process: cloudpathlib's cache (which refuses to
            # overwrite by comparing time stamps) starts empty
            shutil.rmtree(os.path.join(tmp, "cache"))
            os.makedirs(os.path.join(tmp, "cache"))
            for r, _, fs in os.walk(os.path.join(tmp, "storage")):
                for f in fs:
                    os.utime(os.path.join(r, f), (10 ** 9, 10 ** 9))
            op = d.pick(["write", "read", "unlink", "exists", "glob", "append", "openw", "binary", "dirs", "names", "mkdir"])
            path = d.pick(paths)
            log.append((op, path))
            parent = posixpath.dirname(path)
            if op in ("write", "openw", "append"):
                text = _text(d) or ("-" if op == "append" else "")
                if op == "append" and enc.get(path):
                    op = "openw"  # do not mix encodings
                kw = {}
                if op != "append" and d.bool(0.3):
                    kw = {"encoding": d.pick(["utf-16", "latin-1", "utf-8"]), "errors": "replace"}
                enc[path] = kw.get("encoding")
                for kind, fs, root in both:
                    full = fs.joinpath(root, *path.split("/"))
                    d.check(full == f"{root}/{path}", f"{kind} joinpath: {full}")
                    fs.mkdir(fs.parent(full), parents=True, exist_ok=True)
                    if op == "write":
                        fs.write_text(full, text, **kw)
                    else:
                        mode = "w" if op == "openw" else "a"
                        if op == "append" and path not in model:
                            mode = "w"
                        with fs.open(full, mode, **kw) as f:
                            f.write(text)
                data = text.encode(kw.get("encoding", "utf-8"), kw.get("errors", "strict"))
                model[path] = model.get(path, b"") + data if op == "append" else data
                while parent:
                    touched.add(parent)
                    parent = posixpath.dirname(parent)
            elif op == "read":
                for kind, fs, root in both:
                    kw = {"encoding": enc[path]} if enc.get(path) else {}
                    r = _run(lambda: fs.open(f"{root}/{path}", **kw))
                    if path in model:
                        d.eq(r[0], "ok", f"{kind}: opening {path} after {log}")
                        with r[1] as f:
                            d.eq(f.read(), model[path].decode(enc.get(path) or "utf-8"), f"{kind}: text of {path} after {log}")
                    else:
                        if r[0] == "ok":
                            r[1].close()
                        d.eq(r[0], "error", f"{kind}: opening the missing {path} after {log}")
            elif op == "binary":
                if path in model:
                    for kind, fs, root in both:
                        with fs.open(f"{root}/{path}", "rb") as f:
                            d.eq(f.read(), model[path], f"{kind}: bytes of {path}")
            elif op == "unlink":
                ok = d.bool()
                for kind, fs, root in both:
                    kw = {"missing_ok": True} if ok else {}
                    r = _run(lambda: fs.unlink(f"{root}/{path}", **kw))
                    d.eq(r[0], "ok" if path in model or ok else "error", f"{kind}: unlink of {path} (missing_ok={ok}) after {log}")
                model.pop(path, None)
            elif op == "exists":
                for kind, fs, root in both:
                    d.eq(bool(fs.exists(f"{root}/{path}")), path in model, f"{kind}: exists({path}) after {log}")
                    d.eq(bool(fs.is_file(f"{root}/{path}")), path in model, f"{kind}: is_file({path}) after {log}")
                    d.eq(bool(fs.is_dir(f"{root}/{path}")), False, f"{kind}: is_dir({path}) after {log}")
            elif op == "dirs":
                for x in dirs:
                    used = any(q.startswith(x + "/") for q in model)
                    for kind, fs, root in both:
                        if used:
                            d.eq(bool(fs.is_dir(f"{root}/{x}")), True, f"{kind}: is_dir({x}) after {log}")
                            d.eq(bool(fs.is_file(f"{root}/{x}")), False, f"{kind}: is_file({x}) after {log}")
                            d.eq(bool(fs.exists(f"{root}/{x}")), True, f"{kind}: exists({x}) after {log}")
                        elif x not in touched:
                            d.eq(bool(fs.is_dir(f"{root}/{x}")), False, f"{kind}: is_dir({x}) after {log}")
            elif op == "mkdir":
                # local directories appear, cloud ones need no creation; never an error with exist_ok
                for kind, fs, root in both:
                    fs.mkdir(f"{root}/{parent}", parents=True, exist_ok=True)
                d.eq(lfs.is_dir(f"{lroot}/{parent}"), True, "local: is_dir after mkdir")
                while parent:
                    touched.add(parent)
                    parent = posixpath.dirname(parent)
            elif op == "glob":
                x = d.pick(dirs)
                if any(q.startswith(x + "/") for q in model):
                    pattern = d.pick(["*", "*.csv", "**/*"])  # cloudpathlib 0.6 matches other patterns against the whole path
                    want = set()
                    for q in model:
                        if q.startswith(x + "/"):
                            rel = q[len(x) + 1 :]
                            if pattern == "**/*" or ("/" not in rel and fnmatch.fnmatchcase(rel, pattern)):
                                want.add(q)
                    for kind, fs, root in both:
                        got = list(fs.glob(f"{root}/{x}", pattern))
                        files = {g[len(root) + 1 :] for g in got if fs.is_file(g)}
                        d.eq(sorted(files), sorted(want), f"{kind}: glob({x}, {pattern}) after {log}")
                        d.eq(len(got), len(set(got)), f"{kind}: repeated entries of glob")
            else:
                for kind, fs, root in both:
                    d.eq(fs.name(f"{root}/{path}"), posixpath.basename(path), f"{kind}: name")
                    d.eq(fs.parent(f"{root}/{path}").rstrip("/"), f"{root}/{parent}", f"{kind}: parent")
                    d.eq(fs.joinpath(root, path), f"{root}/{path}", f"{kind}: joinpath")
        d.show({"operations": log})
        d.nontrivial(any(o in ("write", "openw", "append") for o, _ in log))


def designs(d):
    """A data design in cloud storage answers like one on disk."""
    with scratch() as tmp, cloud(tmp) as cfs:
        local = DataDesign(os.path.join(tmp, "dd"))
        remote = DataDesign("gs://bucket/dir/dd", cfs)
        logs = {}
        for i in range(d.size(1, 3)):
            name = d.pick(["ds", "data set", "k=v,(1)"]) + str(i)
            logs[name] = [gen.events(d, hi=10) for _ in range(d.int(1, 3))]
            for dd in (local, remote):
                dd.add(DataSet([PublisherData(list(e), f"p{k}") for k, e in enumerate(logs[name])], name))
        d.show(logs)
        if d.bool():
            remote = DataDesign("gs://bucket/dir/dd", cfs)
        d.eq(sorted(remote.names), sorted(logs), "names")
        d.eq(remote.count, local.count, "count")
        DataSet.read_data_set.cache_clear() if hasattr(DataSet.read_data_set, "cache_clear") else None
        for name in logs:
            a, b = local.by_name(name), remote.by_name(name)
            d.eq(b.name, name, "name of the data set")
            d.eq(b.publisher_count, a.publisher_count, "publishers")
            for s in (0.0, 0.5, 1.0):
                spends = [s * max(x for _, x in e) for e in logs[name]]
                d.eq(trials.kp(b.reach_by_spend(spends, 3)), trials.kp(a.reach_by_spend(spends, 3)), "reach")
                want = gen.kplus(gen.merged([gen.counts_by_spend(e, x) for e, x in zip(logs[name], spends)]), 3)
                d.eq(trials.kp(b.reach_by_spend(spends, 3)), want, "reach")
        again = list(logs)[0]
        d.raises(Exception, lambda: remote.add(DataSet([PublisherData([(1, 1.0)], "p0")], again)), "a second data set of the same name")
        d.nontrivial()


def trial(d):
    """A trial whose data and results are in cloud storage gives the same row, and resumes."""
    with scratch() as tmp, cloud(tmp) as cfs:
        w = trials.world(d, os.path.join(tmp, "w"), max_sets=1, max_pubs=2, max_desc=1)
        d.show(trials.describe(w))
        name = list(w.logs)[0]
        local = DataDesign(w.dir)
        remote = DataDesign("gs://bucket/dd", cfs)
        remote.add(DataSet([PublisherData(list(e), f"p{k}") for k, e in enumerate(w.logs[name])], name))
        a = Experiment(os.path.join(tmp, "o", "x"), local, name, trials.descriptors(w)).generate_trials()[0].evaluate(w.seed)
        mk = lambda: Experiment("gs://bucket/o/x", remote, name, trials.descriptors(w)).generate_trials()[0]
        b = mk().evaluate(w.seed, cfs)
        trials.same_row(d, trials.row(b), trials.row(a), "a trial in cloud storage")
        n = len(trials.FITTED)
        c = mk().evaluate(w.seed, cfs)
        d.eq(len(trials.FITTED), n, "models fitted for a finished trial")
        trials.same_row(d, trials.row(c), trials.row(a), "the stored result in cloud storage")
        d.eq([g for g in cfs.glob("gs://bucket/o/pending", "*")] if cfs.is_dir("gs://bucket/o/pending") else [], [], "pending entries")
        d.nontrivial()


CHECK = Check(
    "C25",
    [Sub("history", history, 600, 12000), Sub("designs", designs, 80, 1500), Sub("trial", trial, 60, 1000)],
    rule="histories of 3-14 file operations on the local and the cloud wrapper against a dictionary of files; data designs and trials stored in the cloud stand-in and locally; non-trivial: something was written",
    assumptions=["cloud storage is cloudpathlib's local stand-in (as in the repository's tests), in a scratch directory"],
)

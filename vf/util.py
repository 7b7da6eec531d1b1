import contextlib
import os
import shutil
import tempfile


@contextlib.contextmanager
def scratch():
    """A scratch directory of this case, inside the scratch directory of the run."""
    base = os.environ.get("VF_SCRATCH")
    if base:
        os.makedirs(base, exist_ok=True)
    path = tempfile.mkdtemp(prefix="case_", dir=base)
    cwd = os.getcwd()
    try:
        yield path
    finally:
        os.chdir(cwd)
        shutil.rmtree(path, ignore_errors=True)


def tree(path):
    """{relative file name: text} of a directory tree."""
    out = {}
    for root, _, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            with open(p, newline="") as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out

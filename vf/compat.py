"""Work-arounds for this sandbox (none touches the code under test).

* pandas' C CSV reader crashes PyPy 3.9 when it is garbage collected ("not
  correctly handled by the CPython extension TextReader"), so pandas.read_csv is
  made to use its pure Python engine.
* tqdm output and absl logging are silenced.
"""
import functools
import logging
import os

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")


def patch_pandas():
    import pandas as pd

    if getattr(pd.read_csv, "_vf", False):
        return
    original = pd.read_csv

    def read_csv(*args, **kwargs):
        kwargs.setdefault("engine", "python")
        return original(*args, **kwargs)

    read_csv._vf = True
    pd.read_csv = read_csv


def silence():
    import io
    import tqdm as _tqdm_mod  # noqa: F401
    from absl import logging as absl_logging

    if not hasattr(_tqdm_mod.tqdm, "_vf"):
        _tqdm_mod.tqdm._vf = True
        _tqdm_mod.tqdm.__init__ = functools.partialmethod(_tqdm_mod.tqdm.__init__, disable=True)
    absl_logging.set_verbosity(absl_logging.FATAL)
    logging.disable(logging.CRITICAL)


def fast_lhs():
    """pyDOE computes all pairwise distances in a Python loop (minutes on PyPy); same numbers from scipy."""
    import numpy as np
    import pyDOE.doe_lhs as m
    from scipy.spatial.distance import pdist

    if hasattr(m, "_pdist"):
        m._pdist = lambda x: pdist(np.atleast_2d(x))

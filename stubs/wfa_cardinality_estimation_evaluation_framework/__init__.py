"""Stand-in for wfa_cardinality_estimation_evaluation_framework.

The real package is not installed in this sandbox and cannot be fetched.  This
stand-in offers the names that planning-evaluation-framework imports, with the
documented interface, and *exact* sketches (a dictionary id -> frequency), so
that with a very large epsilon the "estimates" are the true values and can be
compared with a brute force count.

It also keeps a log of every noising operation and of every sketch
construction, so a check can see which releases of data really took place,
independently of what the code under test writes in its own ledger.
"""

# Each entry: ("noise", epsilon) / ("estimator", {...}) / ("sketch", {...})
RELEASE_LOG = []

# every application of a noiser to a number: (epsilon, object id, input, output)
NOISE_CALLS = []


def reset_log():
    del RELEASE_LOG[:]
    del NOISE_CALLS[:]

"""A small property-based testing engine (Hypothesis is not usable on PyPy 3.9 here).

A case is a finite sequence of integers (the "choice sequence").  Generators are
ordinary Python code that asks a `D` object for choices; the same code replays a
recorded sequence, and shrinking works on the sequence itself (delete spans, zero
and minimise entries), so every failure shrinks without per-type shrinkers.  A choice of 0 is always the
simplest one.  All randomness of a case comes from the sequence, which is drawn
from random.Random("<VERIF_SEED>:<property>:<sub-check>:<index>").
"""
import math
import random


class Reject(Exception):
    """The generated case lies outside the domain of the property."""


class CaseTimeout(BaseException):
    """A single case ran too long: inconclusive, never a violation."""


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class D:
    """Source of choices for one case, and its checks."""

    def __init__(self, rng=None, choices=None, big=False):
        self._rng = rng
        self._in = list(choices) if choices is not None else None
        self._pos = 0
        self.choices = []
        self.labels = set()
        self.is_nontrivial = False
        self.shown = None
        self.big = big  # thorough tier: larger structures

    # -- choices ---------------------------------------------------------
    def raw(self, n):
        """An int in [0, n)."""
        if n <= 1:
            return 0
        if self._in is not None:
            c = self._in[self._pos] if self._pos < len(self._in) else 0
            self._pos += 1
            c = min(max(0, int(c)), n - 1)
        else:
            c = self._rng.randrange(n)
        self.choices.append(c)
        return c

    def int(self, lo, hi):
        return lo + self.raw(hi - lo + 1)

    def bool(self, p=0.5):
        return self.raw(1024) >= 1024 * (1 - p)

    def pick(self, seq):
        seq = list(seq)
        return seq[self.raw(len(seq))]

    def weighted(self, pairs):
        """pairs: (weight, value); the first one is the simplest."""
        total = sum(w for w, _ in pairs)
        r = self.raw(total)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        raise AssertionError

    def size(self, lo, hi):
        """An int in [lo, hi], small values being much more likely."""
        if hi <= lo:
            return lo
        span = hi - lo + 1
        bits = self.raw(span.bit_length() + 1)
        top = min(span, 1 << bits)
        return lo + self.raw(top)

    def unit(self):
        """A float in [0, 1): mostly generic, sometimes a simple dyadic."""
        if self.raw(4) == 0:
            return self.raw(64) / 64.0
        return self.raw(1 << 40) / float(1 << 40)

    def float(self, lo, hi):
        return lo + (hi - lo) * self.unit()

    def log_float(self, lo, hi):
        return math.exp(self.float(math.log(lo), math.log(hi)))

    def dyadic(self, lo, hi, denom=64):
        """k/denom in [lo, hi]: sums and differences are exact in floating point."""
        return self.int(int(lo * denom), int(hi * denom)) / float(denom)

    def list(self, fn, lo, hi):
        return [fn() for _ in range(self.size(lo, hi))]

    def perm(self, n):
        out = list(range(n))
        for i in range(n - 1):
            j = i + self.raw(n - i)
            out[i], out[j] = out[j], out[i]
        return out

    def shuffled(self, seq):
        seq = list(seq)
        return [seq[i] for i in self.perm(len(seq))]

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def seed(self):
        return self.raw(1 << 31)

    # -- bookkeeping -----------------------------------------------------
    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def label(self, name):
        self.labels.add(str(name))

    def show(self, obj):
        self.shown = obj

    # -- checks ----------------------------------------------------------
    def reject(self):
        raise Reject()

    def fail(self, message, key=None):
        raise Violation(message, key)

    def check(self, cond, message="", key=None):
        if not cond:
            if callable(message):
                message = message()
            raise Violation(message, key)

    def eq(self, got, want, what=""):
        if isinstance(got, float) and isinstance(want, float) and got != got and want != want:
            return
        try:
            same = bool(got == want)
        except Exception:
            same = False
        if not same:
            raise Violation(f"{what}: got {got!r}, expected {want!r}")

    def close(self, got, want, what="", rel=1e-9, abs_=1e-9):
        try:
            g, w = float(got), float(want)
        except Exception:
            raise Violation(f"{what}: got {got!r}, expected the number {want!r}")
        if math.isnan(g) and math.isnan(w):
            return
        if not (g == w or abs(g - w) <= max(abs_, rel * max(abs(g), abs(w)))):
            raise Violation(f"{what}: got {g!r}, expected {w!r}")

    def leq(self, a, b, what="", rel=1e-9, abs_=1e-9):
        a, b = float(a), float(b)
        if not (a <= b + max(abs_, rel * max(abs(a), abs(b)))):
            raise Violation(f"{what}: {a!r} should be <= {b!r}")

    def raises(self, exc, fn, what="", match=None):
        try:
            r = fn()
        except exc as e:
            if match and match not in str(e):
                raise Violation(f"{what}: message {e!s} does not contain {match!r}")
            return e
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{what}: expected {exc}, got {type(e).__name__}: {e}")
        raise Violation(f"{what}: expected {exc}, got the value {r!r}")


def shrink(run, choices, max_evals=400, deadline=None):
    """Minimises a failing choice sequence.

    run(choices) -> the (normalised) failing choice list or None.
    """
    import time

    best = list(choices)
    evals = [0]

    def attempt(cand):
        nonlocal best
        if evals[0] >= max_evals or (deadline and time.monotonic() > deadline):
            return False
        if cand == best:
            return False
        evals[0] += 1
        r = run(cand)
        if r is None:
            return False
        r = list(r)
        if (len(r), r) < (len(best), best):
            best = r
            return True
        return False

    improved = True
    while improved and evals[0] < max_evals:
        improved = False
        if deadline and time.monotonic() > deadline:
            break
        # delete spans
        k = max(1, len(best) // 2)
        while k >= 1:
            i = 0
            while i + k <= len(best):
                if attempt(best[:i] + best[i + k :]):
                    improved = True
                else:
                    i += k
                if evals[0] >= max_evals:
                    break
            k //= 2
        # zero, then minimise entries
        for i in range(len(best)):
            if i >= len(best):
                break
            if best[i] == 0:
                continue
            if attempt(best[:i] + [0] + best[i + 1 :]):
                improved = True
                continue
            lo, hi = 0, best[i]
            while lo + 1 < hi and i < len(best):
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1 :]):
                    improved = True
                    hi = mid
                else:
                    lo = mid
            # reduce a length-like entry together with a deletion after it
            if i < len(best) and best[i] > 0 and i + 1 < len(best):
                if attempt(best[:i] + [best[i] - 1] + best[i + 2 :]):
                    improved = True
    return best, evals[0]

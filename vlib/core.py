"""Property harness: sub-checks over JSON-able generated cases, with recording and replay."""
import contextlib
import hashlib
import json
import traceback

import numpy as np


class Violation(Exception):
    """The code under test contradicted the oracle."""


class Env:
    """What a check may use: the loaded modules and the precision of this process."""

    def __init__(self, tf, pySLM2, dtype):
        self.tf, self.p, self.dtype = tf, pySLM2, dtype
        self.real = np.dtype(dtype)
        self.cplx = np.dtype("complex64" if dtype == "float32" else "complex128")
        self.eps = float(np.finfo(self.real).eps)
        self.is64 = dtype == "float64"

    def r(self, v):
        """Round a number or array to the working precision, as float64."""
        return np.asarray(v, dtype=self.real).astype(np.float64)

    def c(self, v):
        return np.asarray(v, dtype=self.cplx).astype(np.complex128)

    def fft(self, use_tf):
        b = self.p.BACKEND
        b.fft_backend = b.FFT_BACKEND_TENSORFLOW if use_tf else b.FFT_BACKEND_NUMPY


class Rec:
    """Measures what the generator produced."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self._flag = False

    def begin(self):
        self._flag = False
        self._case_labels = set()

    def nt(self, cond=True):
        if cond:
            self._flag = True

    def label(self, *names):
        for n in names:
            if n:
                self._case_labels.add(str(n))

    def end(self, case):
        self.evaluations += 1
        for n in self._case_labels:
            self.labels[n] = self.labels.get(n, 0) + 1
        if self._flag:
            s = json.dumps(case, sort_keys=True)
            h = hashlib.blake2b(s.encode(), digest_size=8).hexdigest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                k = len(self.nontrivial)
                # keep a few early and a few later (larger) cases
                if k in (2, 9, 40) and len(s) < 4000:
                    self.samples.append(case)


class Sub:
    """One generated-input search: a strategy, a check and how many cases.

    rule says what makes a case non-trivial; dtypes are the precisions it runs in."""

    def __init__(self, name, strategy, check, n, rule, dtypes=("float32", "float64"), thorough=15, shards=4,
                 warm=None):
        self.name, self.strategy, self.check, self.n, self.rule = name, strategy, check, n, rule
        self.dtypes, self.thorough, self.shards = dtypes, thorough, shards

    def total(self, tier):
        return self.n * (self.thorough if tier == "thorough" else 1)


@contextlib.contextmanager
def sut(what):
    """Run the code under test: an exception on a valid input contradicts the property."""
    try:
        yield
    except (Violation, KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        msg = " ".join(str(e).split())[:300]
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, msg)) from e


def must_raise(what, fn, kinds=Exception):
    try:
        fn()
    except kinds:
        return
    except Exception as e:
        raise Violation("%s: expected %s, got %s: %s" % (what, kinds, type(e).__name__, str(e)[:200]))
    raise Violation("%s: no error was raised" % what)


def need(cond, what, *args):
    if not cond:
        raise Violation(what % args if args else what)


def close(actual, expected, tol, what):
    """|actual - expected| <= tol everywhere; shapes must agree exactly; NaN never matches."""
    a = np.asarray(actual)
    e = np.asarray(expected)
    if a.shape != e.shape:
        raise Violation("%s: shape %s, expected %s" % (what, a.shape, e.shape))
    if a.size == 0:
        return
    wide = np.complex128 if (np.iscomplexobj(a) or np.iscomplexobj(e)) else np.float64
    a = a.astype(wide)
    e = e.astype(wide)
    t = np.broadcast_to(np.asarray(tol, dtype=float), e.shape)
    with np.errstate(all="ignore"):
        d = np.abs(a - e)
        bad = ~(d <= t) & ~np.isposinf(t)
    if bad.any():
        i = np.unravel_index(int(np.argmax(np.where(bad, np.where(np.isnan(d), np.inf, d - t), -1))), e.shape)
        raise Violation("%s: at index %s got %s, expected %s (tolerance %.3g; %d of %d entries off)"
                        % (what, tuple(int(k) for k in i), a[i], e[i], t[i], int(bad.sum()), e.size))


def same(actual, expected, what):
    a, e = np.asarray(actual), np.asarray(expected)
    if a.shape != e.shape:
        raise Violation("%s: shape %s, expected %s" % (what, a.shape, e.shape))
    if not np.array_equal(a, e):
        bad = np.argwhere(a != e)
        i = tuple(int(k) for k in bad[0]) if len(bad) else ()
        raise Violation("%s: differs at %d of %d entries, first %s: got %s, expected %s"
                        % (what, len(bad), a.size, i, a[i] if a.size else a, e[i] if e.size else e))


def harness_error():
    return traceback.format_exc()

"""Small property-based testing engine (choice-sequence generation and shrinking).

Every random decision of a case is an integer drawn through Data.draw(n) (0..n).  A case is a pure function
of its choice sequence: generation draws the choices from random.Random(seed string), replay feeds a recorded
sequence (padded with zeros), and shrinking edits the sequence and re-runs the case.
"""

import hashlib
import json
import os
import random
import sys
import time
import traceback

import numpy as np


class Violation(Exception):
    """The property does not hold for the generated case."""


class Discard(Exception):
    """The generated case is outside of the property's domain."""


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code under test."""


class Data:
    MAX_CHOICES = 20000

    def __init__(self, rng=None, choices=None, tee=None):
        self._rng = rng
        self._replay = choices
        self._tee = tee
        self.choices = []
        self.labels = set()
        self.notes = {}
        self.nontriv = False

    # -- primitive ---------------------------------------------------------------------------
    def draw(self, n):
        """An integer in [0, n]."""
        n = int(n)
        if n < 0:
            raise HarnessError(f"draw({n})")
        k = len(self.choices)
        if k >= self.MAX_CHOICES:
            raise Discard("too many choices")
        if self._replay is not None:
            v = min(self._replay[k], n) if k < len(self._replay) else 0
        else:
            v = self._rng.randint(0, n)
        self.choices.append(v)
        if self._tee is not None:
            os.write(self._tee, b"%d\n" % v)
        return v

    # -- derived -----------------------------------------------------------------------------
    def int(self, lo, hi):
        return int(lo) + self.draw(int(hi) - int(lo))

    def small(self, hi):
        """An integer in [0, hi], biased to small values."""
        return self.draw(self.draw(hi)) if hi > 0 else 0

    def bool(self, one_in=2):
        """True with probability 1/one_in (false is the simple value)."""
        return self.draw(one_in - 1) == one_in - 1

    def choice(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, *pairs):
        """pairs of (weight, value); the first is the simple value."""
        total = sum(w for w, _ in pairs)
        k = self.draw(total - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise HarnessError("weighted")

    def unit(self):
        """A float in [0, 1)."""
        return self.draw((1 << 24) - 1) / float(1 << 24)

    def float(self, lo, hi):
        return lo + (hi - lo) * self.unit()

    def logfloat(self, lo, hi):
        return float(np.exp(self.float(np.log(lo), np.log(hi))))

    def f32(self, lo, hi):
        return float(np.float32(self.float(lo, hi)))

    def rng(self):
        """A numpy generator seeded by a drawn choice (for bulk data)."""
        return np.random.default_rng(self.draw((1 << 30) - 1))

    def perm(self, n):
        if n > 40:
            return self.rng().permutation(n)
        a = list(range(n))
        for i in range(n - 1):
            j = i + self.draw(n - 1 - i)
            a[i], a[j] = a[j], a[i]
        return np.array(a, dtype=int)

    # -- bookkeeping -------------------------------------------------------------------------
    def label(self, *names):
        self.labels.update(str(x) for x in names)

    def nontrivial(self, flag=True):
        self.nontriv = self.nontriv or bool(flag)

    def note(self, **kw):
        self.notes.update(kw)


def jsonable(x):
    if isinstance(x, np.ndarray):
        if x.size > 200:
            return {"shape": list(x.shape), "first": jsonable(x.ravel()[:30])}
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x[:200]]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)


class Sub:
    """One executable sub-check of a property."""

    def __init__(self, fn, quick, thorough=None, name=None, rule=""):
        self.fn = fn
        self.name = name or fn.__name__
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 300
        self.rule = rule


FATAL = (MemoryError, ImportError, OSError, KeyboardInterrupt, SystemExit, HarnessError, NameError, SyntaxError)


def run_case(sub, data):
    """Returns None (held), ("discard", why) or ("violation", message)."""
    np.random.seed(12345)
    try:
        with np.errstate(all="ignore"):
            sub.fn(data)
        return None
    except Discard as e:
        return ("discard", str(e))
    except Violation as e:
        return ("violation", str(e))
    except FATAL as e:
        # A NameError etc. is a mistake in the harness unless it was raised in the code under test.
        if isinstance(e, (NameError, ImportError, OSError, MemoryError)) and in_freud(e):
            return ("violation", exc_text(e))
        raise
    except Exception as e:  # noqa: BLE001
        # The harness only handles valid calls and their results here, so that any other exception means
        # that the code under test raised or produced a malformed result.
        return ("violation", exc_text(e))


def in_freud(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(("/repo/freud", os.path.dirname(os.path.abspath(sys.modules["freud"].__file__)))):
            return True
        tb = tb.tb_next
    return False


def exc_text(e):
    lines = traceback.format_exception(type(e), e, e.__traceback__)
    return "unexpected exception: " + "".join(lines)[-1800:]


def seed_string(seed, prop, sub, index):
    return f"{seed}/{prop}/{sub}/{index}"


def fresh_data(seed, prop, sub, index, tee=None):
    return Data(rng=random.Random(seed_string(seed, prop, sub, index)), tee=tee)


def digest(sub, choices):
    return hashlib.sha1((sub + json.dumps(choices)).encode()).hexdigest()[:16]


def shrink(sub, choices, test=None, budget=25.0, max_tries=1500):
    """Minimises the choice sequence while the case still violates the property."""
    t0 = time.time()
    tries = [0]
    cache = {}

    def default_test(c):
        d = Data(choices=c)
        r = run_case(sub, d)
        if r is not None and r[0] == "violation":
            # drop trailing unused choices
            return d.choices
        return None

    test = test or default_test

    def attempt(c):
        key = tuple(c)
        if key in cache:
            return cache[key]
        if time.time() - t0 > budget or tries[0] >= max_tries:
            return None
        tries[0] += 1
        try:
            r = test(list(c))
        except Exception:  # noqa: BLE001
            r = None
        cache[key] = r
        return r

    best = list(choices)
    r = attempt(best)
    if r is not None and len(r) <= len(best):
        best = r
    improved = True
    while improved and time.time() - t0 < budget and tries[0] < max_tries:
        improved = False
        # delete chunks
        for size in (32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0:
                c = best[:i] + best[i + size:]
                r = attempt(c)
                if r is not None and (len(r), r) < (len(best), best):
                    best = r
                    improved = True
                    i = min(i, len(best) - size)
                else:
                    i -= max(1, size // 2)
        # zero chunks
        for size in (16, 8, 4, 2, 1):
            for i in range(0, len(best) - size + 1, size):
                if any(best[i:i + size]):
                    c = best[:i] + [0] * size + best[i + size:]
                    r = attempt(c)
                    if r is not None and (len(r), r) < (len(best), best):
                        best = r
                        improved = True
        # minimise values
        for i in range(len(best)):
            if i >= len(best):
                break
            lo, hi = 0, best[i]
            steps = 0
            while lo < hi and steps < 12:
                steps += 1
                mid = (lo + hi) // 2
                r = attempt(best[:i] + [mid] + best[i + 1:])
                if r is not None and (len(r), r) < (len(best), best):
                    best = r
                    improved = True
                    if i >= len(best):
                        break
                    hi = min(mid, best[i])
                else:
                    lo = mid + 1
    return best, tries[0]


# -- comparison helpers ------------------------------------------------------------------------


def fail(msg, **info):
    raise Violation(msg + ("" if not info else " " + json.dumps(jsonable(info))[:1500]))


def require(cond, msg, **info):
    if not cond:
        fail(msg, **info)


def same_shape(name, got, want_shape):
    got = np.asarray(got)
    require(got.shape == tuple(want_shape), f"{name}: wrong shape", got=list(got.shape), want=list(want_shape))
    return got


def close(name, got, want, rtol=1e-4, atol=1e-5, mask=None, **info):
    """got == want within tolerance (elementwise where mask), with shape check. nan is never equal."""
    got = np.asarray(got)
    want = np.asarray(want)
    require(got.shape == want.shape, f"{name}: wrong shape", got=list(got.shape), want=list(want.shape), **info)
    if got.size == 0:
        return
    with np.errstate(all="ignore"):
        bad = ~(np.abs(got - want) <= np.asarray(atol) + rtol * np.abs(want))
        bad &= ~((got == want))
    if mask is not None:
        bad &= mask
    if bad.any():
        idx = np.argwhere(bad)[0]
        t = tuple(idx)
        fail(f"{name}: {int(bad.sum())} of {got.size} values differ", index=idx, got=got[t] if got.ndim else got,
             want=want[t] if want.ndim else want, **info)


def equal(name, got, want, **info):
    got = np.asarray(got)
    want = np.asarray(want)
    require(got.shape == want.shape, f"{name}: wrong shape", got=list(got.shape), want=list(want.shape), **info)
    bad = got != want
    if np.any(bad):
        idx = np.argwhere(bad)[0]
        t = tuple(idx)
        fail(f"{name}: {int(bad.sum())} of {got.size} values differ", index=idx, got=got[t] if got.ndim else got,
             want=want[t] if want.ndim else want, **info)


def raises(fn, types=Exception):
    """True if fn raises one of types (a Python exception)."""
    try:
        fn()
    except types:
        return True
    return False

"""Harness context: the same harness runs symbolically and, for replays, on plain doubles."""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

from symex import core, snp
from symex.core import SB, SR, sand, scmp, snot, sor  # noqa: F401


class Violated(Exception):
    pass


class AssumptionFailed(Exception):
    pass


class Case:
    """One harness plus the bounds it is run under."""

    def __init__(self, name, fn, bounds, **opts):
        self.name, self.fn, self.bounds, self.opts = name, fn, bounds, opts


def AND(*xs):
    return sand(*xs)


def OR(*xs):
    return sor(*xs)


def NOT(x):
    return snot(x)


def IMPLIES(a, b):
    return sor(snot(a), b)


def IFF(a, b):
    return sor(sand(a, b), sand(snot(a), snot(b)))


def near(a, b, tol):
    """|a-b| <= tol (symbolic or concrete scalars)."""
    d = a - b
    if not snp.is_sym(d):
        return bool(abs(d) <= tol) if not (isinstance(d, float) and math.isnan(d)) else False
    return sand(scmp(d, tol, "<="), scmp(d, -tol, ">="))


def near_vec(a, b, tol):
    a, b = list(a), list(b)
    return sand(*[near(x, y, tol) for x, y in zip(a, b)]) if len(a) == len(b) else False


def dot(a, b):
    t = 0
    for x, y in zip(a, b):
        t = t + x * y
    return t


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def scale(a, k):
    return [x * k for x in a]


def truth(x):
    """Python truth of a (possibly symbolic) value; forks the path if needed."""
    return bool(x)


class SymCtx:
    symbolic = True

    def __init__(self, eng):
        self.e = eng

    def real(self, name, lo=None, hi=None):
        return self.e.var(name, lo, hi)

    def reals(self, prefix, n, lo, hi):
        return [self.real(f"{prefix}{i}", lo, hi) for i in range(n)]

    def angle(self, name):
        a = self.e.angle(name)
        core.ssincos(a)
        return a

    def int(self, name, lo, hi):
        x = self.e.var(name, lo, hi, integer=True)
        return self.e.concretise_int(x)

    def pick(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def flag(self, name):
        return bool(self.int(name, 0, 1))

    def assume(self, c):
        self.e.assume(c)

    def check(self, c, msg):
        self.e.check(c, msg)

    def close(self, a, b, tol, msg):
        self.e.check(near(a, b, tol), msg)

    def fail(self, msg):
        self.e.check(False, msg)

    def cover(self, name):
        """Reachability marker."""
        self.e.reached.add("cover:" + name)

    def array(self, x, dtype=None):
        return snp.array(x, dtype)

    def ints(self, x):
        return np.array(x, dtype=np.int32)

    def number(self, s):
        """The number written in a file."""
        return snp.parse_float(s)

    def sqrt(self, x):
        return core.ssqrt(x)

    def queue_random(self, values):
        """Values the generator returns next (after that: any value of [0, 1))."""
        self.e.rnd_queue.extend(values)


class ConCtx:
    symbolic = False

    def __init__(self, values):
        self.v = dict(values)
        self.n_checks = 0
        self.rnd_n = 0
        self.rnd_queue = []
        r = np.random
        r.random = r.random_sample = lambda size=None: self._rand(size)
        r.rand = lambda *size: self._rand(size or None)
        r.uniform = lambda low=0.0, high=1.0, size=None: low + self._rand(size) * (high - low)

    def _rand1(self):
        if self.rnd_queue:
            return self.rnd_queue.pop(0)
        self.rnd_n += 1
        return np.float64(self.v.get(f"rnd{self.rnd_n - 1}", 0.5))

    def _rand(self, size):
        """np.random in replays: the values the solver chose."""
        if size is None:
            return self._rand1()
        shp = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        out = np.zeros(shp)
        for ix in np.ndindex(*shp):
            out[ix] = self._rand1()
        return out

    def queue_random(self, values):
        self.rnd_queue.extend(values)

    def _get(self, name, lo, hi):
        v = self.v.get(name)
        if v is None:
            v = 0.0
            if lo is not None and v < lo:
                v = float(lo)
            if hi is not None and v > hi:
                v = float(hi)
        if lo is not None and v < lo - 1e-12:
            raise AssumptionFailed(name)
        if hi is not None and v > hi + 1e-12:
            raise AssumptionFailed(name)
        return v

    def real(self, name, lo=None, hi=None):
        return np.float64(self._get(name, lo, hi))

    def reals(self, prefix, n, lo, hi):
        return [self.real(f"{prefix}{i}", lo, hi) for i in range(n)]

    def angle(self, name):
        c, s = self.v.get("cos_" + name, 1.0), self.v.get("sin_" + name, 0.0)
        return 2 * math.atan2(s, c)

    def int(self, name, lo, hi):
        return int(round(self._get(name, lo, hi)))

    def pick(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def flag(self, name):
        return bool(self.int(name, 0, 1))

    def assume(self, c):
        if not bool(c):
            raise AssumptionFailed()

    def check(self, c, msg):
        self.n_checks += 1
        if not isinstance(c, (bool, np.bool_)):
            raise TypeError(f"check of {type(c).__name__}: {msg}")  # ~True is not False
        if not c:
            raise Violated(msg)

    def close(self, a, b, tol, msg):
        self.check(near(a, b, tol), f"{msg}: {a} vs {b}")

    def fail(self, msg):
        raise Violated(msg)

    def cover(self, name):
        pass

    def array(self, x, dtype=None):
        return np.array(x, dtype=np.float64 if dtype is None else dtype)

    def ints(self, x):
        return np.array(x, dtype=np.int32)

    def number(self, s):
        return float(s)

    def sqrt(self, x):
        return np.sqrt(x)


def frac_to_json(v):
    if v is None:
        return None
    v = Fraction(v)
    return float(v)

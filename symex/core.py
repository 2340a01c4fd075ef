"""Symbolic values and path exploration for executing the real Python source.

Real-valued quantities are multivariate polynomials with rational coefficients over
"atoms" (input variables, square roots, reciprocals, extrema, floors, trig values).
Branches on symbolic conditions fork the path; feasibility and every verdict are decided
by an SMT solver (z3, nonlinear real arithmetic) over *all* values of the inputs.
"""
from __future__ import annotations

import math
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

SLOW = float(os.environ["SYM_SLOW"]) if "SYM_SLOW" in os.environ else None
F0 = Fraction(0)
F1 = Fraction(1)


class PathAbort(BaseException):
    """Path is infeasible (an assumption cannot hold on it)."""


class PathStop(BaseException):
    """Stop this path (a violation was recorded or the budget is spent)."""


class Undecided(BaseException):
    """The engine cannot continue on this path."""


class PathTimeout(BaseException):
    """The code under test did not return within the time allowed for one path."""


class Unsupported(Exception):
    """Operation has no symbolic model."""


# --------------------------------------------------------------------------- polynomials
# A polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of (atom, exp).

P0: dict = {}


def pconst(c) -> dict:
    c = Fraction(c)
    return {(): c} if c else {}


def padd(a, b):
    if not b:
        return a
    if not a:
        return b
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def psub(a, b):
    return padd(a, pneg(b)) if b else a


def pscale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def pisconst(a):
    return not a or (len(a) == 1 and () in a)


def pval(a):
    return a.get((), F0)


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul_raw(a, b):
    r: dict = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            v = r.get(m)
            c = c1 * c2
            r[m] = c if v is None else v + c
    return {m: c for m, c in r.items() if c}


def pmul(a, b):
    if not a or not b:
        return {}
    if pisconst(a):
        return pscale(b, a[()])
    if pisconst(b):
        return pscale(a, b[()])
    return ENG.reduce(pmul_raw(a, b))


def ppow(a, n):
    r = pconst(1)
    base = a
    while n:
        if n & 1:
            r = pmul(r, base)
        n >>= 1
        if n:
            base = pmul(base, base)
    return r


def pkey(a):
    return tuple(sorted(a.items()))


def _mono_key(m):
    return (sum(e for _, e in m), m)


def plead(a):
    """Leading (monomial, coefficient) under a graded order."""
    m = max(a, key=_mono_key_lex)
    return m, a[m]


def _mono_key_lex(m):
    # graded lexicographic; larger atom id = "bigger" variable
    deg = 0
    for _, e in m:
        deg += e
    return (deg, tuple(sorted(m, reverse=True)))


def pnormal(a):
    """Return (scale, a/scale) with leading coefficient 1."""
    _, c = plead(a)
    return c, pscale(a, 1 / c)


def psqrt_poly(q):
    """If q == k * p**2 for a polynomial p and rational k, return (k, p)."""
    if pisconst(q):
        return None
    m, k = _glex_lead(q)
    if k < 0 or any(e % 2 for _, e in m):
        return None
    q = pscale(q, 1 / k)
    lead = tuple((a, e // 2) for a, e in m)
    p = {lead: F1}
    rem = psub(q, pmul_raw(p, p))
    ldict = dict(lead)
    for _ in range(60):
        if not rem:
            return k, p
        m, c = _glex_lead(rem)
        d = dict(m)
        for a, e in ldict.items():
            d[a] = d.get(a, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        t = tuple(sorted((a, e) for a, e in d.items() if e))
        term = {t: c / 2}
        rem = psub(rem, padd(pscale(pmul_raw(p, term), 2), pmul_raw(term, term)))
        p = padd(p, term)
    return None


def _glex_lead(a):
    # true graded-lex (a monomial order) over the atoms present
    atoms = sorted({x for m in a for x, _ in m})
    idx = {x: i for i, x in enumerate(atoms)}

    def key(m):
        v = [0] * len(atoms)
        for x, e in m:
            v[idx[x]] = e
        return (sum(v), v)

    m = max(a, key=key)
    return m, a[m]


# --------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "arg", "z", "name", "lo", "hi", "pos", "base")

    def __init__(self, id, kind, arg, name, lo=None, hi=None):
        self.id, self.kind, self.arg, self.name = id, kind, arg, name
        self.lo, self.hi = lo, hi
        self.pos = False
        self.base = None
        self.z = None


# --------------------------------------------------------------------------- conditions
class SB:
    """Symbolic truth value: a boolean combination of polynomial relations."""

    __slots__ = ("k", "a", "b", "_z", "_at", "_lin", "_key")
    __array_ufunc__ = None

    def __init__(self, k, a, b=None):
        self.k, self.a, self.b = k, a, b
        self._z = None
        self._at = None
        self._lin = None
        self._key = None

    def __bool__(self):
        return ENG.branch(self)

    def __and__(self, o):
        return sand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return snot(self)

    def __xor__(self, o):
        return sor(sand(self, snot(o)), sand(snot(self), o))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SB, bool, np.bool_)):
            return snot(self ^ o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (SB, bool, np.bool_)):
            return self ^ o
        return NotImplemented

    __hash__ = object.__hash__

    # numeric use of a truth value forces a decision
    def _num(self):
        return 1 if bool(self) else 0

    def __int__(self):
        return self._num()

    __index__ = __int__

    def __add__(self, o):
        return self._num() + (o._num() if isinstance(o, SB) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - (o._num() if isinstance(o, SB) else o)

    def __rsub__(self, o):
        return o - self._num()


def _isb(x):
    return isinstance(x, (bool, np.bool_))


def sand(*xs):
    out = []
    for x in xs:
        if isinstance(x, SB):
            if x.k == "and":
                out.extend(x.a)
            else:
                out.append(x)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SB("and", out)


def sor(*xs):
    out = []
    for x in xs:
        if isinstance(x, SB):
            if x.k == "or":
                out.extend(x.a)
            else:
                out.append(x)
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SB("or", out)


_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def snot(x):
    if not isinstance(x, SB):
        return not x
    if x.k == "rel":
        return SB("rel", x.a, _NEG[x.b])
    if x.k == "and":
        return SB("or", [snot(y) for y in x.a])
    if x.k == "or":
        return SB("and", [snot(y) for y in x.a])
    if x.k == "not":
        return x.a
    return SB("not", x)


def _cmpc(v, op):
    if op == "<":
        return v < 0
    if op == "<=":
        return v <= 0
    if op == ">":
        return v > 0
    if op == ">=":
        return v >= 0
    if op == "==":
        return v == 0
    return v != 0


_MIR = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def skey(b):
    """Hashable form; conditions that differ by scaling or operand order get the same one."""
    if b._key is None:
        if b.k == "rel":
            c, q = pnormal(b.a)
            b._key = ("rel", pkey(q), b.b if c > 0 else _MIR[b.b])
        elif b.k == "not":
            b._key = ("not", skey(b.a))
        else:
            b._key = (b.k, frozenset(skey(y) if isinstance(y, SB) else bool(y) for y in b.a))
    return b._key


def rel(p, op):
    """Condition  p op 0  (denominators cleared, constants folded)."""
    if pisconst(p):
        return _cmpc(pval(p), op)
    p = ENG.clear_signed(p)
    if pisconst(p):
        return _cmpc(pval(p), op)
    # trivial sign: even monomial with constant coefficients of one sign
    s = _definite(p)
    if s is not None:
        if s > 0:
            if op in (">", "!="):
                return True
            if op in ("<=", "=="):
                return False
        if s < 0:
            if op in ("<", "!="):
                return True
            if op in (">=", "=="):
                return False
    ds = _semidefinite(p)
    if ds is not None:
        if ds > 0 and op == ">=":
            return True
        if ds > 0 and op == "<":
            return False
        if ds < 0 and op == "<=":
            return True
        if ds < 0 and op == ">":
            return False
    e = _elim_sqrt(p, op)
    if e is not None:
        return e
    e = _elim_round(p, op)
    if e is not None:
        return e
    e = _elim_angle(p, op)
    if e is not None:
        return e
    return SB("rel", p, op)


def _elim_angle(p, op):
    """k*angle + c op 0, the angle being in [-pi/2, pi/2], as a condition on its sine and cosine."""
    if len(p) > 2:
        return None
    ms = [m for m in p if m]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
        return None
    aid = ms[0][0][0]
    if ENG.atoms[aid].kind != "angle":
        return None
    k, c = p[ms[0]], -p.get((), F0)
    b = c / k
    if k < 0:
        op = _MIR[op]
    if abs(b) > Fraction(math.pi / 2) + Fraction(1, 10**12):
        return op in ("!=", "<", "<=") if b > 0 else op in ("!=", ">", ">=")
    co, si = ENG.trig(aid)
    ct, st = (1, 0) if b == 0 else (ffloat(math.cos(b)), ffloat(math.sin(b)))
    x = si * ct - co * st
    return rel(x.p, op) if isinstance(x, SR) else _cmpc(Fraction(x), op)


def _elim_round(p, op):
    """k*round(x) + c op 0 as a condition on x (ties taken to round away from the bound)."""
    if len(p) > 2:
        return None
    ms = [m for m in p if m]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
        return None
    at = ENG.atoms[ms[0][0][0]]
    if at.kind != "round":
        return None
    k, c = p[ms[0]], -p.get((), F0)
    b = c / k
    if k < 0:
        op = _MIR[op]
    x, dec = at.arg
    g = Fraction(1, 10) ** dec
    fl = Fraction(math.floor(b / g)) * g  # largest grid value <= b
    on = fl == b
    h = g / 2

    def ge(v):  # round(x) >= v for v on the grid
        return rel(psub(x, pconst(v - h)), ">=")

    if op == ">":
        return ge(fl + g)
    if op == "<=":
        return snot(ge(fl + g))
    if op == ">=":
        return ge(fl if on else fl + g)
    if op == "<":
        return snot(ge(fl if on else fl + g))
    if not on:
        return op == "!="
    eq = sand(ge(fl), snot(ge(fl + g)))
    return eq if op == "==" else snot(eq)


def _elim_sqrt(p, op):
    """a*r + b op 0 with a single square root r = sqrt(q): equivalent root-free condition."""
    if len(p) == 2:
        # c1*r1 - c2*r2 op 0
        (m1, c1), (m2, c2) = p.items()
        if (len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1 and c1 * c2 < 0
                and ENG.atoms[m1[0][0]].kind == ENG.atoms[m2[0][0]].kind == "sqrt"):
            if c1 < 0:
                m1, c1, m2, c2 = m2, c2, m1, c1
            q1, q2 = ENG.atoms[m1[0][0]].arg, ENG.atoms[m2[0][0]].arg
            return rel(psub(pscale(q1, c1 * c1), pscale(q2, c2 * c2)), op)
    rid = None
    for m in p:
        for a, e in m:
            if ENG.atoms[a].kind == "sqrt":
                if rid is None:
                    rid = a
                elif rid != a:
                    return None
    if rid is None:
        return None
    q = ENG.atoms[rid].arg
    for m in q:
        for x, _ in m:
            if ENG.atoms[x].kind == "sqrt":
                return None
    a: dict = {}
    b: dict = {}
    for m, c in p.items():
        rest = tuple(t for t in m if t[0] != rid)
        if len(rest) == len(m):
            b[m] = c
        else:
            a[rest] = c
    if op in (">", ">="):
        a, b = pneg(a), pneg(b)
        op = "<" if op == ">" else "<="
    d = psub(pmul(pmul(a, a), q), pmul(b, b))
    if op == "<":
        return sor(sand(rel(b, "<"), rel(a, "<=")), sand(rel(b, "<"), rel(d, "<")),
                   sand(rel(a, "<"), rel(d, ">")))
    if op == "<=":
        return sor(sand(rel(b, "<="), rel(a, "<=")), sand(rel(b, "<="), rel(d, "<=")),
                   sand(rel(a, "<="), rel(d, ">=")))
    eq = sand(rel(d, "=="), rel(pmul(a, b), "<="))
    return eq if op == "==" else snot(eq)


def _mono_nonneg(m):
    for a, e in m:
        if e % 2 and not ENG.atoms[a].pos and ENG.atoms[a].kind != "sqrt":
            return False
    return True


def _semidefinite(p):
    sg = 0
    for m, c in p.items():
        if not _mono_nonneg(m):
            return None
        s = 1 if c > 0 else -1
        if sg and s != sg:
            return None
        sg = s
    return sg


def _definite(p):
    s = _semidefinite(p)
    if s is None:
        return None
    if () in p:
        return s
    return None


# --------------------------------------------------------------------------- reals
NUMT = (int, float, np.integer, np.floating, Fraction)


_FF: dict = {}


def ffloat(v: float) -> Fraction:
    """The decimal that the double stands for (shortest repr)."""
    f = _FF.get(v)
    if f is None:
        f = Fraction(repr(v))
        if len(_FF) < 100000:
            _FF[v] = f
    return f


def topoly(x):
    if isinstance(x, SR):
        return x.p
    if isinstance(x, (bool, np.bool_)):
        return pconst(int(x))
    if isinstance(x, (int, np.integer)):
        return pconst(int(x))
    if isinstance(x, Fraction):
        return pconst(x)
    if isinstance(x, (float, np.floating)):
        return pconst(ffloat(float(x)))
    if isinstance(x, SB):
        return pconst(x._num())
    raise Unsupported(f"not a number: {type(x)}")


def special(x):
    """x is a concrete nan/inf"""
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


class SR:
    """Symbolic real number."""

    __slots__ = ("p",)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p

    # numpy scalar look-alike
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype(np.float64)

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def real(self):
        return self

    def isconst(self):
        return pisconst(self.p)

    # ---- arithmetic
    def _bin(self, o, f):
        if isinstance(o, np.ndarray):
            from symex import snp
            return snp.elementwise(lambda y: f(self, y), o)
        return f(self, o)

    def __add__(self, o):
        if isinstance(o, SR):
            return SR(padd(self.p, o.p))
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda s, y: s + y)
        if not isinstance(o, NUMT) and not isinstance(o, SB):
            return NotImplemented
        if special(o):
            return np.float64(o)
        return SR(padd(self.p, topoly(o)))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda s, y: s - y)
        if not isinstance(o, (SR, SB) + NUMT):
            return NotImplemented
        if special(o):
            return np.float64(-o)
        return SR(psub(self.p, topoly(o)))

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda s, y: y - s)
        if not isinstance(o, (SR, SB) + NUMT):
            return NotImplemented
        if special(o):
            return np.float64(o)
        return SR(psub(topoly(o), self.p))

    def __mul__(self, o):
        if isinstance(o, SR):
            return SR(pmul(self.p, o.p))
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda s, y: s * y)
        if not isinstance(o, NUMT) and not isinstance(o, SB):
            return NotImplemented
        if special(o):
            if math.isnan(o):
                return np.float64(o)
            if self > 0:
                return np.float64(o)
            if self < 0:
                return np.float64(-o)
            return np.float64("nan")
        return SR(pmul(self.p, topoly(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda s, y: sdiv(s, y))
        if not isinstance(o, (SR, SB) + NUMT):
            return NotImplemented
        return sdiv(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda s, y: sdiv(y, s))
        if not isinstance(o, (SR, SB) + NUMT):
            return NotImplemented
        return sdiv(o, self)

    def __floordiv__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda s, y: s // y)
        return sfloor(sdiv(self, o))

    def __rfloordiv__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda s, y: y // s)
        return sfloor(sdiv(o, self))

    def __mod__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, lambda s, y: s % y)
        return self - sfloor(sdiv(self, o)) * o

    def __rmod__(self, o):
        return o - sfloor(sdiv(o, self)) * self

    def __neg__(self):
        return SR(pneg(self.p))

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __pow__(self, n):
        if isinstance(n, np.ndarray):
            return self._bin(n, lambda s, y: s ** y)
        if isinstance(n, SR):
            if n.isconst():
                n = pval(n.p)
            else:
                raise Unsupported("symbolic exponent")
        n = Fraction(float(n)) if isinstance(n, (float, np.floating)) else Fraction(n)
        if n.denominator == 1:
            n = int(n)
            if n >= 0:
                return SR(ppow(self.p, n))
            return sdiv(1.0, SR(ppow(self.p, -n)))
        if n.denominator == 2:
            r = ssqrt(self)
            k = int(n.numerator)
            return r ** k
        raise Unsupported("fractional power")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    # ---- comparisons
    def _cmp(self, o, op):
        if isinstance(o, SR):
            return rel(psub(self.p, o.p), op)
        if isinstance(o, np.ndarray):
            from symex import snp
            return snp.elementwise(lambda y: scmp(self, y, op), o)
        if isinstance(o, (bool, np.bool_)) or isinstance(o, NUMT):
            if special(o):
                if math.isnan(o):
                    return op == "!="
                big = o > 0
                return {"<": big, "<=": big, ">": not big, ">=": not big,
                        "==": False, "!=": True}[op]
            return rel(psub(self.p, topoly(o)), op)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        if self.isconst():
            return hash(pval(self.p))
        return 0x5EED

    def __bool__(self):
        r = rel(self.p, "!=")
        return bool(r)

    # ---- conversions
    def __float__(self):
        if self.isconst():
            return float(pval(self.p))
        return ENG.realise(self)

    def __int__(self):
        if self.isconst():
            return int(pval(self.p))
        return ENG.concretise_int(strunc(self))

    def __index__(self):
        if self.isconst() and pval(self.p).denominator == 1:
            return int(pval(self.p))
        a = self._single_int()
        if a:
            return ENG.concretise_int(self)
        raise TypeError("symbolic real cannot be interpreted as an integer")

    def _single_int(self):
        """All atoms are integer valued with integer coefficients."""
        for m, c in self.p.items():
            if c.denominator != 1:
                return False
            for at, _ in m:
                if ENG.atoms[at].kind not in ("floor", "int"):
                    return False
        return True

    def __round__(self, n=None):
        if n is None:
            return ENG.concretise_int(sfloor(self + Fraction(1, 2)))
        return sround(self, n)

    def __floor__(self):
        return ENG.concretise_int(sfloor(self))

    def __ceil__(self):
        return -ENG.concretise_int(sfloor(-self))

    def __trunc__(self):
        return int(self)

    def is_integer(self):
        return bool(self == sfloor(self))

    def __str__(self):
        return ENG.token(self, "")

    __repr__ = __str__

    def __format__(self, spec):
        return ENG.token(self, spec)

    # ufunc-on-object hooks
    def sqrt(self):
        return ssqrt(self)

    def conjugate(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def scmp(a, b, op):
    if isinstance(a, SR):
        r = a._cmp(b, op)
        if r is NotImplemented:
            raise TypeError
        return r
    if isinstance(b, SR):
        sw = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
        return b._cmp(a, sw)
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    if op == ">=":
        return a >= b
    if op == "==":
        return a == b
    return a != b


def sdiv(a, b):
    if not isinstance(a, SR) and not isinstance(b, SR):
        with np.errstate(all="ignore"):
            return np.float64(a) / np.float64(b)
    if special(b):
        return np.float64(0.0) if not math.isnan(b) else np.float64(b)
    if special(a):
        return a * (1.0 if b > 0 else -1.0)
    pb = topoly(b)
    pa = topoly(a)
    if pisconst(pb):
        v = pval(pb)
        if v == 0:
            return _divzero(a)
        return SR(pscale(pa, 1 / v))
    if bool(rel(pb, "==")):
        return _divzero(a)
    if not pa:
        return SR({})
    # constant multiple?
    if len(pa) == len(pb):
        m, c = next(iter(pb.items()))
        if m in pa:
            k = pa[m] / c
            if pscale(pb, k) == pa:
                return SR(pconst(k))
    return SR(pmul(pa, ENG.inv(pb)))


def _divzero(a):
    if isinstance(a, SR):
        if a > 0:
            return np.float64("inf")
        if a < 0:
            return np.float64("-inf")
        return np.float64("nan")
    with np.errstate(all="ignore"):
        return np.float64(a) / np.float64(0.0)


def sabs(x):
    if not isinstance(x, SR):
        return abs(x)
    s = _semidefinite(x.p) if x.p else 1
    if s is not None:
        return x if s > 0 else -x
    if x >= 0:
        return x
    return -x


def fsqrt_frac(v: Fraction) -> Fraction:
    """Square root of a rational: exact when possible, else the rounded double."""
    n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator:
        return Fraction(n, d)
    return ffloat(math.sqrt(v))


def ssqrt(x):
    if not isinstance(x, SR):
        with np.errstate(all="ignore"):
            return np.sqrt(np.float64(x))
    q = x.p
    if pisconst(q):
        v = pval(q)
        if v < 0:
            return np.float64("nan")
        return SR(pconst(fsqrt_frac(v)))
    s = _semidefinite(q)
    if s is None or s < 0:
        if x < 0:
            return np.float64("nan")
    k = psqrt_poly(q)
    if k is not None:
        c, p = k
        return sabs(SR(p)) * SR(pconst(fsqrt_frac(c)))
    return SR(ENG.sqrt(q))


def sfloor(x):
    if not isinstance(x, SR):
        return np.floor(np.float64(x))
    if x.isconst():
        return SR(pconst(math.floor(pval(x.p))))
    if x._single_int():
        return x
    return SR(ENG.fn_atom("floor", x.p))


def strunc(x):
    if x._single_int():
        return x
    if x >= 0:
        return sfloor(x)
    return -sfloor(-x)


def sround(x, n=0):
    if not isinstance(x, SR):
        return np.round(np.float64(x), n)
    if x.isconst():
        return SR(pconst(Fraction(np.round(float(pval(x.p)), n))))
    if n == 0 or n is None:
        return sfloor(x + Fraction(1, 2))
    return SR(ENG.fn_atom("round", x.p, int(n)))


def smax(xs):
    return _ext(xs, "max")


def smin(xs):
    return _ext(xs, "min")


def _ext(xs, kind):
    xs = list(xs)
    conc = [x for x in xs if not isinstance(x, SR)]
    sym = {}
    for x in xs:
        if isinstance(x, SR):
            if x.isconst():
                conc.append(x)
            else:
                sym.setdefault(pkey(x.p), x)
    for c in conc:
        if special(c) and math.isnan(c):
            return np.float64("nan")
    best = None
    if conc:
        key = lambda v: Fraction(pval(v.p)) if isinstance(v, SR) else (
            v if special(v) else Fraction(float(v)))
        best = max(conc, key=key) if kind == "max" else min(conc, key=key)
        if special(best):
            if (best > 0) == (kind == "max"):
                return best
            best = None
    items = list(sym.values()) + ([best] if best is not None else [])
    if not items:
        return best
    if len(items) == 1:
        return items[0]
    # drop those dominated syntactically
    polys = [topoly(i) for i in items]
    keep = []
    for i, p in enumerate(polys):
        dom = False
        for j, q in enumerate(polys):
            if i == j:
                continue
            d = psub(p, q)
            if pisconst(d):
                v = pval(d)
                if kind == "max" and (v < 0 or (v == 0 and j < i)):
                    dom = True
                if kind == "min" and (v > 0 or (v == 0 and j < i)):
                    dom = True
        if not dom:
            keep.append(p)
    if len(keep) == 1:
        return SR(keep[0])
    return SR(ENG.ext_atom(kind, keep))


# --------------------------------------------------------------------------- trigonometry
def _angle_parts(x):
    """Split an angle into [(atom, integer multiple)] and a constant."""
    if not isinstance(x, SR):
        return [], x
    parts = []
    const = 0.0
    for m, c in x.p.items():
        if m == ():
            const = float(c)
            continue
        if len(m) != 1 or m[0][1] != 1 or c.denominator != 1:
            raise Unsupported("trigonometric argument is not an integer multiple of an angle")
        parts.append((m[0][0], int(c)))
    return parts, const


def ssincos(x):
    parts, const = _angle_parts(x)
    c, s = np.float64(math.cos(const)), np.float64(math.sin(const))
    if const == 0.0:
        c, s = np.float64(1.0), np.float64(0.0)
    for a, k in parts:
        ca, sa = ENG.trig(a)
        if k < 0:
            sa = -sa
            k = -k
        ck, sk = SR(pconst(1)), SR(pconst(0))
        for _ in range(k):
            ck, sk = ck * ca - sk * sa, sk * ca + ck * sa
        c, s = c * ck - s * sk, s * ck + c * sk
    return s, c


def ssin(x):
    return ssincos(x)[0] if isinstance(x, SR) else np.sin(x)


def scos(x):
    return ssincos(x)[1] if isinstance(x, SR) else np.cos(x)


def stan(x):
    if not isinstance(x, SR):
        return np.tan(x)
    s, c = ssincos(x)
    return s / c


def sarccos(x):
    if not isinstance(x, SR):
        with np.errstate(all="ignore"):
            return np.arccos(x)
    if x.isconst():
        with np.errstate(all="ignore"):
            return np.float64(np.arccos(float(pval(x.p))))
    if (x < -1) or (x > 1):
        return np.float64("nan")
    return SR(ENG.half_angle(x.p)) * 2


def sarcsin(x):
    if not isinstance(x, SR):
        with np.errstate(all="ignore"):
            return np.arcsin(x)
    return np.float64(math.pi / 2) - sarccos(x)


# --------------------------------------------------------------------------- engine
class Stats:
    def __init__(self):
        self.paths = 0
        self.paths_witnessed = 0
        self.paths_infeasible = 0
        self.queries = 0
        self.q_sat = 0
        self.q_unsat = 0
        self.q_unknown = 0
        self.asserts = 0
        self.asserts_trivial = 0
        self.undecided = 0
        self.solver_s = 0.0
        self.realised = 0
        self.branches = 0

    def asdict(self):
        return dict(self.__dict__)


class Violation:
    def __init__(self, msg, model, choices, note=""):
        self.msg, self.model, self.choices, self.note = msg, model, choices, note


class Engine:
    def __init__(self, query_ms=1500, assert_ms=20000, max_paths=100000, deadline=None,
                 max_violations=25):
        self.query_ms = query_ms
        self.assert_ms = assert_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.violations: list[Violation] = []
        self.max_violations = max_violations
        self.notes: list[str] = []
        self.undecided_msgs: list[str] = []
        self.samples: list[dict] = []
        self.max_samples = 12
        self.incomplete = False
        self.on_violation = None  # replays candidate inputs on the real code
        self.confirmed = None
        self.spurious: list = []
        self.prefix: list = []
        self.reset()

    # ---- per path state
    def reset(self):
        self.atoms: list[Atom] = []
        self.akey: dict = {}
        self.path: list[SB] = []
        self.pos = 0
        self.inputs: list[int] = []
        self.choices: dict = {}
        self.tokens: list = []
        self.witness = None
        self.wcache: dict = {}
        self.solver = None
        self.solver_n = 0
        self.zcache: dict = {}
        self.clos: dict = {}
        self.zdefs: dict = {}
        self.nonlinear = False
        self.realised_here = 0
        self.known_feasible = True
        self.newdec: list = []
        self.reached: set = set()
        self.known: dict = {}
        self.opaque = 0
        self.rnd_n = 0
        self.rnd_queue: list = []
        self.files: dict = {}

    # ---- atoms
    def _atom(self, kind, arg, key, name=None, lo=None, hi=None):
        a = self.akey.get(key)
        if a is not None:
            return a
        i = len(self.atoms)
        at = Atom(i, kind, arg, name or f"{kind}{i}", lo, hi)
        self.atoms.append(at)
        self.akey[key] = at
        return at

    def var(self, name, lo=None, hi=None, integer=False):
        at = self._atom("int" if integer else "var", None, ("var", name), name,
                        None if lo is None else Fraction(lo), None if hi is None else Fraction(hi))
        if at.id not in self.inputs:
            self.inputs.append(at.id)
            if at.lo is not None and at.lo >= 0:
                at.pos = True
        return SR({((at.id, 1),): F1})

    def inv(self, p):
        """Polynomial equal to 1/p (p known nonzero on this path)."""
        n, dens = self.clear(p)
        out = pconst(1)
        for aid, k in dens:
            out = pmul(out, ppow(self.atoms[aid].arg, k))
        if len(n) == 1:
            (m, c), = n.items()
            res = pscale(out, 1 / c)
            for aid, e in m:
                res = pmul(res, {((self._inv_atom({((aid, 1),): F1}).id, e),): F1})
            return res
        c, q = pnormal(n)
        at = self._inv_atom(q)
        return pmul(pscale(out, 1 / c), {((at.id, 1),): F1})

    def _inv_atom(self, q):
        at = self._atom("inv", q, ("inv", pkey(q)))
        if len(q) == 1:
            (m, c), = q.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                at.base = m[0][0]
                at.pos = self.atoms[at.base].pos or self.atoms[at.base].kind == "sqrt"
        if _semidefinite(q) == 1:
            at.pos = True
        return at

    def sqrt(self, q):
        n, dens = self.clear(q)
        out = pconst(1)
        for aid, k in dens:
            at = self.atoms[aid]
            k2 = k + (k % 2)
            if not at.pos and (k2 // 2) % 2:
                k2 += 2
            if k2 > k:
                n = pmul(n, ppow(at.arg, k2 - k))
            out = pmul(out, {((aid, k2 // 2),): F1})
        if pisconst(n):
            return pscale(out, fsqrt_frac(pval(n)))
        c, n1 = pnormal(n)
        if c < 0:
            c, n1 = -c, pscale(n1, -1)
        sp = psqrt_poly(n1)
        if sp is not None:
            return pmul(out, pscale(topoly(sabs(SR(sp[1]))), fsqrt_frac(c * sp[0])))
        at = self._atom("sqrt", n1, ("sqrt", pkey(n1)))
        return pmul(out, pscale({((at.id, 1),): F1}, fsqrt_frac(c)))

    def fn_atom(self, kind, p, extra=None):
        at = self._atom(kind, (p, extra), (kind, pkey(p), extra))
        return {((at.id, 1),): F1}

    def ext_atom(self, kind, polys):
        key = (kind, tuple(sorted(pkey(p) for p in polys)))
        at = self._atom(kind, polys, key)
        return {((at.id, 1),): F1}

    def angle(self, name, lo=None, hi=None):
        """Symbolic angle in [-pi, pi]; the sine and cosine of its half are the unknowns."""
        at = self._atom("angle", None, ("angle", name), name)
        return SR({((at.id, 1),): Fraction(2)})

    def half_angle(self, xp):
        at = self._atom("angle", xp, ("half_arccos", pkey(xp)))
        return {((at.id, 1),): F1}

    def trig(self, aid):
        at = self.atoms[aid]
        if at.kind != "angle":
            raise Unsupported("trigonometric function of a general real")
        if at.arg is not None:
            x = SR(at.arg)
            c = ssqrt((x + 1) * Fraction(1, 2))
            s = ssqrt((1 - x) * Fraction(1, 2))
            return c, s
        c = self._atom("var", None, ("cos", aid), f"cos_{at.name}", Fraction(0), Fraction(1))
        first = c.id not in self.inputs
        s = self._atom("var", None, ("sin", aid), f"sin_{at.name}", Fraction(-1), Fraction(1))
        if first:
            self.inputs.append(c.id)
            self.inputs.append(s.id)
            cs, ss = SR({((c.id, 1),): F1}), SR({((s.id, 1),): F1})
            self.path.append(SB("rel", psub(padd(pmul(cs.p, cs.p), pmul(ss.p, ss.p)), pconst(1)), "=="))
            s.base = c.id
            if self.witness is not None:
                self.witness = None
                self.wcache = {}
        return SR({((c.id, 1),): F1}), SR({((s.id, 1),): F1})

    # ---- normal forms
    def reduce(self, p):
        """Apply r*r -> q for square roots, x*(1/x) -> 1, sin**2 -> 1 - cos**2."""
        atoms = self.atoms
        for _ in range(50):
            todo = None
            for m in p:
                ids = None
                for a, e in m:
                    k = atoms[a].kind
                    if e >= 2 and (k == "sqrt" or k == "var" and atoms[a].base is not None):
                        todo = m
                        break
                    if k == "inv" and atoms[a].base is not None:
                        if ids is None:
                            ids = {x for x, _ in m}
                        if atoms[a].base in ids:
                            todo = m
                            break
                if todo is not None:
                    break
            if todo is None:
                return p
            out: dict = {}
            for m, c in p.items():
                t = self._red_mono(m, c)
                out = padd(out, t) if out else t
            p = out
        return p

    def _red_mono(self, m, c):
        atoms = self.atoms
        d = dict(m)
        extra = None
        for a, e in m:
            at = atoms[a]
            if e >= 2 and (at.kind == "sqrt" or at.kind == "var" and at.base is not None):
                # the square of a root, or sin**2 = 1 - cos**2
                f = at.arg if at.kind == "sqrt" else {(): F1, ((at.base, 2),): -F1}
                f = ppow_raw(f, e // 2)
                extra = f if extra is None else pmul_raw(extra, f)
                if e % 2:
                    d[a] = 1
                else:
                    del d[a]
            elif at.kind == "inv" and at.base is not None and at.base in d:
                b = at.base
                k = min(d[a], d[b])
                d[a] -= k
                d[b] -= k
                if not d[a]:
                    del d[a]
                if not d[b]:
                    del d[b]
        t = {tuple(sorted(d.items())): c}
        return t if extra is None else pmul_raw(t, extra)

    def clear(self, p):
        """Return (n, [(inv_atom, k)]) with p = n * prod inv**k and n free of inverses."""
        dens = []
        for _ in range(20):
            mx: dict = {}
            for m in p:
                for a, e in m:
                    if self.atoms[a].kind == "inv":
                        mx[a] = max(mx.get(a, 0), e)
            if not mx:
                return p, dens
            aid, k = max(mx.items())
            p = self._mul_den(p, aid, k)
            dens.append((aid, k))
        raise Unsupported("nested denominators")

    def _mul_den(self, p, aid, k):
        arg = self.atoms[aid].arg
        groups: dict = {}
        for m, c in p.items():
            e = 0
            rest = []
            for a, x in m:
                if a == aid:
                    e = x
                else:
                    rest.append((a, x))
            groups.setdefault(k - e, {})[tuple(rest)] = c
        out: dict = {}
        for e, g in groups.items():
            t = pmul(g, ppow(arg, e)) if e else g
            out = padd(out, t)
        return out

    def clear_signed(self, p):
        """Sign-equivalent polynomial without inverses."""
        for _ in range(20):
            mx: dict = {}
            for m in p:
                for a, e in m:
                    if self.atoms[a].kind == "inv":
                        mx[a] = max(mx.get(a, 0), e)
            if not mx:
                return p
            aid, k = max(mx.items())
            if not self.atoms[aid].pos and k % 2:
                k += 1
            p = self._mul_den(p, aid, k)
            if not p:
                return p
        raise Unsupported("nested denominators")

    # ---- evaluation under a witness (floats)
    def ev_atom(self, aid):
        v = self.wcache.get(aid)
        if v is not None:
            return v
        at = self.atoms[aid]
        k = at.kind
        if k in ("var", "int"):
            v = self.witness.get(at.name)
            if v is None:
                v = self.witness[at.name] = self.default_value(at)
        elif k == "sqrt":
            v = math.sqrt(max(self.ev(at.arg), 0.0))
        elif k == "inv":
            v = 1.0 / self.ev(at.arg)
        elif k == "floor":
            v = float(math.floor(self.ev(at.arg[0])))
        elif k == "round":
            v = round(self.ev(at.arg[0]), at.arg[1])
        elif k == "max":
            v = max(self.ev(q) for q in at.arg)
        elif k == "min":
            v = min(self.ev(q) for q in at.arg)
        elif k == "angle":
            raise KeyError("angle")
        else:
            raise KeyError(k)
        self.wcache[aid] = v
        return v

    def ev(self, p):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for a, e in m:
                x *= self.ev_atom(a) ** e
            t += x
        return t

    def ev_abs(self, p):
        t = 0.0
        for m, c in p.items():
            x = abs(float(c))
            for a, e in m:
                x *= abs(self.ev_atom(a)) ** e
            t += x
        return t

    def ev_b(self, b):
        """True / False / None (too close to call) under the witness."""
        if not isinstance(b, SB):
            return bool(b)
        if b.k == "rel":
            v = self.ev(b.a)
            if abs(v) <= 1e-9 * self.ev_abs(b.a):
                return None
            return _cmpc(v, b.b)
        if b.k == "and":
            r = True
            for x in b.a:
                v = self.ev_b(x)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if b.k == "or":
            r = False
            for x in b.a:
                v = self.ev_b(x)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if b.k == "not":
            v = self.ev_b(b.a)
            return None if v is None else not v
        return None

    def weval(self, b):
        if self.witness is None:
            return None
        try:
            return self.ev_b(b)
        except (KeyError, ZeroDivisionError, OverflowError, ValueError):
            return None

    # ---- z3 translation
    def zatom(self, aid):
        at = self.atoms[aid]
        if at.z is None:
            if at.kind in ("int", "floor"):
                at.z = z3.ToReal(z3.Int(at.name + "!i"))
            elif at.kind == "angle":
                raise Unsupported("angle used as a number")
            else:
                at.z = z3.Real(at.name)
        return at.z

    def atom_polys(self, at):
        if at.arg is None:
            return []
        if at.kind in ("max", "min"):
            return at.arg
        if at.kind in ("floor", "round"):
            return [at.arg[0]]
        return [at.arg]

    def atom_closure(self, aid):
        """Atom ids that define aid, itself included (cached)."""
        c = self.clos.get(aid)
        if c is None:
            c = {aid}
            for p in self.atom_polys(self.atoms[aid]):
                for m in p:
                    for a, _ in m:
                        c |= self.atom_closure(a)
            self.clos[aid] = c
        return c

    def zdef(self, aid):
        d = self.zdefs.get(aid)
        if d is None:
            d = self.zdefs[aid] = self._zdef(self.atoms[aid])
        return d

    def _zdef(self, at):
        k = at.kind
        z = self.zatom(at.id)
        out = []
        if k in ("var", "int"):
            if at.lo is not None:
                out.append(z >= zc(at.lo))
            if at.hi is not None:
                out.append(z <= zc(at.hi))
        elif k == "sqrt":
            out.append(z >= 0)
            out.append(z * z == self.zpoly(at.arg))
        elif k == "inv":
            out.append(z * self.zpoly(at.arg) == 1)
        elif k == "floor":
            x = self.zpoly(at.arg[0])
            out.append(z <= x)
            out.append(x < z + 1)
        elif k == "round":
            x = self.zpoly(at.arg[0])
            h = zc(Fraction(1, 2) / Fraction(10) ** at.arg[1])
            out.append(z - x <= h)
            out.append(x - z <= h)
        elif k in ("max", "min"):
            xs = [self.zpoly(q) for q in at.arg]
            out.append(z3.Or([z == x for x in xs]))
            for x in xs:
                out.append(z >= x if k == "max" else z <= x)
        return out

    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            fs = []
            if c != 1 or not m:
                fs.append(zc(c))
            for a, e in m:
                z = self.zatom(a)
                fs.extend([z] * e)
            ts.append(fs[0] if len(fs) == 1 else zmul(fs))
        if not ts:
            return zc(F0)
        return ts[0] if len(ts) == 1 else zsum(ts)

    def zb(self, b):
        """z3 term of a condition (cached)."""
        if not isinstance(b, SB):
            return z3.BoolVal(bool(b))
        if b._z is not None:
            return b._z
        if b.k == "rel":
            x = self.zpoly(scale_int(b.a))
            op = b.b
            if op == "<":
                r = x < 0
            elif op == "<=":
                r = x <= 0
            elif op == ">":
                r = x > 0
            elif op == ">=":
                r = x >= 0
            elif op == "==":
                r = x == 0
            else:
                r = x != 0
        elif b.k == "and":
            r = z3.And([self.zb(y) for y in b.a])
        elif b.k == "or":
            r = z3.Or([self.zb(y) for y in b.a])
        elif b.k == "not":
            r = z3.Not(self.zb(b.a))
        else:
            raise AssertionError(b.k)
        b._z = r
        return r

    def batoms(self, b):
        """Closure of atom ids a condition depends on (cached)."""
        if not isinstance(b, SB):
            return set()
        if b._at is None:
            c: set = set()
            if b.k == "rel":
                for m in b.a:
                    for a, _ in m:
                        c |= self.atom_closure(a)
            elif b.k == "not":
                c |= self.batoms(b.a)
            else:
                for y in b.a:
                    c |= self.batoms(y)
            b._at = c
        return b._at

    # ---- solving
    def solve(self, conds, ms):
        """Satisfiability of conds (list of SB): 'sat' (+model), 'unsat' or 'unknown'.

        Nonlinear conditions are activated lazily: a subset that is unsatisfiable decides
        the query, a model of the subset that meets the rest decides it too.
        """
        lin = [c for c in conds if is_linear(self, c)]
        non = [c for c in conds if not is_linear(self, c)]
        if len(non) <= 1:
            return self.solve1(conds, ms)
        if is_linear(self, conds[-1]):
            active, rest = lin, non
        else:
            active, rest = lin + [non[-1]], non[:-1]
        t_end = time.time() + ms / 1000
        saved = self.witness, self.wcache
        try:
            while True:
                left = int((t_end - time.time()) * 1000)
                if left <= 0:
                    return "unknown", None
                r, m = self.solve1(active, left)
                if r != "sat":
                    if r == "unknown" and rest:
                        left = int((t_end - time.time()) * 1000)
                        if left > 100:
                            return self.solve1(active + rest, left)
                    return r, m
                if not rest:
                    return r, m
                self.set_witness(m)
                bad = [c for c in rest if self.weval(c) is not True]
                if not bad:
                    return r, m
                worst = [c for c in bad if self.weval(c) is False]
                pick = (worst or bad)[-3:]
                active = active + pick
                rest = [c for c in rest if not any(c is p for p in pick)]
        finally:
            self.witness, self.wcache = saved

    def solve1(self, conds, ms):
        self.check_deadline()
        t0 = time.time()
        zs = [self.zb(c) for c in conds]
        defs: set = set()
        for c in conds:
            defs |= self.batoms(c)
        defs = sorted(defs)
        dz = [d for a in defs for d in self.zdef(a)]
        lin = all(is_linear(self, c) for c in conds) and all(
            self.atoms[a].kind in ("var", "int", "floor", "round", "max", "min")
            and (self.atoms[a].kind in ("var", "int")
                 or all(deg(q) <= 1 for q in (
                     self.atoms[a].arg if self.atoms[a].kind in ("max", "min")
                     else [self.atoms[a].arg[0]])))
            for a in defs)
        ints = any(self.atoms[a].kind in ("int", "floor") for a in defs)
        if self.deadline is not None:
            ms = max(200, min(ms, int((self.deadline - time.time()) * 1000)))
        res, model = run_solver(zs + dz, ms, lin, ints)
        self.stats.queries += 1
        dt = time.time() - t0
        self.stats.solver_s += dt
        if SLOW is not None and dt > SLOW:
            print(f"slow {dt:.2f}s {res} lin={lin} n={len(conds)} path={self.stats.paths}",
                  file=sys.stderr)
            for line in traceback.format_stack(limit=14):
                if "/repo/" in line:
                    print("   ", line.strip().splitlines()[0], file=sys.stderr)
            if os.environ.get("SYM_DUMP"):
                with open(f"/tmp/w/q{self.stats.queries}.smt2", "w") as fh:
                    ss = z3.Solver()
                    ss.add(zs + dz)
                    fh.write(ss.to_smt2())
        if res == "sat":
            self.stats.q_sat += 1
            return "sat", {at.name: zval(model, at) for at in
                           (self.atoms[i] for i in self.inputs)}
        if res == "unsat":
            self.stats.q_unsat += 1
        else:
            self.stats.q_unknown += 1
        return res, None

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            self.incomplete = True
            raise PathStop("time budget")

    def feasible(self, extra=None, ms=None):
        conds = list(self.path)
        if extra is not None:
            if extra is False:
                return "unsat", None
            if extra is not True:
                conds.append(extra)
        return self.solve(conds, ms or self.query_ms)

    def set_witness(self, model):
        self.witness = {k: float(v) for k, v in model.items() if v is not None}
        self.wcache = {}

    def default_value(self, at):
        """A value for an input the path does not constrain yet: anything in its range."""
        if at.name.startswith(("cos_", "sin_")):
            raise KeyError(at.name)
        lo = at.lo if at.lo is not None else (at.hi - 7 if at.hi is not None else Fraction(-3))
        hi = at.hi if at.hi is not None else lo + 7
        g = Fraction((at.id * 37 + 23) % 101, 101)
        if at.kind == "int":
            return float(lo + int((hi - lo) * g))
        return float(lo + (hi - lo) * g)

    # ---- branching
    def branch(self, b):
        if not isinstance(b, SB):
            return bool(b)
        key = skey(b)
        v = self.known.get(key)
        if v is not None:
            return v  # same condition as earlier on this path
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.learn(key, b, v)
            self.pos += 1
            self.newdec.append(v)
            self.path.append(b if v else snot(b))
            return v
        w = self.weval(b)
        st = {}
        models = {}
        if w is True:
            st[True] = "sat"
        elif w is False:
            st[False] = "sat"
        for side in (True, False):
            if side in st:
                continue
            r, m = self.feasible(b if side else snot(b))
            st[side] = r
            if m is not None:
                models[side] = m
            if r == "unsat":
                # other side is implied (path itself feasible or vacuous)
                if side is True:
                    st.setdefault(False, "sat" if w is False else "implied")
        t, f = st[True], st[False]
        if t == "unsat" and f == "unsat":
            self.stats.paths_infeasible += 1
            raise PathAbort()
        if t == "unsat":
            v = False
        elif f == "unsat":
            v = True
        else:
            # both possible: take the witnessed side first, queue the other
            if w is not None:
                v = w
            elif t == "sat":
                v = True
            else:
                v = f != "sat"
            self.worklist.append((self.newdec + [not v], models.get(not v)))
        self.newdec.append(v)
        self.prefix = list(self.newdec)
        self.pos = len(self.prefix)
        self.learn(key, b, v)
        self.path.append(b if v else snot(b))
        if w is not v:
            m = models.get(v)
            if m is not None:
                self.set_witness(m)
            elif w is None and st[v] == "implied":
                pass  # the witness may still satisfy it (too close to call)
            elif w is not None and w is not v:
                self.witness = None
        return v

    def learn(self, key, b, v):
        """Remember a decided condition, its negation and what follows directly."""
        self.known[key] = v
        n = snot(b)
        if isinstance(n, SB):
            self.known[skey(n)] = not v
        if b.k == ("and" if v else "or"):
            for y in b.a:
                if isinstance(y, SB):
                    k = skey(y)
                    if k not in self.known:
                        self.learn(k, y, v)

    def assume(self, b):
        if isinstance(b, (bool, np.bool_)):
            if not b:
                self.stats.paths_infeasible += 1
                raise PathAbort()
            return
        self.path.append(b)
        w = self.weval(b)
        if w is True:
            return
        if self.pos < len(self.prefix):
            return
        r, m = self.feasible()
        if r == "unsat":
            self.stats.paths_infeasible += 1
            raise PathAbort()
        if m is not None:
            self.set_witness(m)
        else:
            self.witness = None

    def concretise_int(self, x):
        if not isinstance(x, SR):
            return int(x)
        if x.isconst():
            return int(pval(x.p))
        # branch over feasible integer values
        tried = []
        while True:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][1]
                self.pos += 1
                self.newdec.append(("v", v))
            else:
                v = None
                if self.witness is not None:
                    try:
                        v = int(round(self.ev(x.p)))
                    except (KeyError, ZeroDivisionError, ValueError, OverflowError):
                        v = None
                if v is None:
                    r, m = self.feasible()
                    if r == "unsat":
                        raise PathAbort()
                    if m is None:  # values the linear conditions allow are all tried
                        r, m = self.solve1([c for c in self.path if is_linear(self, c)],
                                           self.query_ms)
                        if r == "unsat":
                            self.stats.paths_infeasible += 1
                            raise PathAbort()
                        if m is None:
                            raise Undecided("integer value")
                        self.set_witness(m)
                        v = int(round(self.ev(x.p)))
                        self.witness = None
                    else:
                        self.set_witness(m)
                        v = int(round(self.ev(x.p)))
                if v in tried:  # the witness is rounded: next to the limit of two values
                    r, m = self.feasible()
                    if r == "unsat":
                        self.stats.paths_infeasible += 1
                        raise PathAbort()
                    v = next(v + d for d in sorted(range(-400, 401), key=abs) if v + d not in tried)
                self.newdec.append(("v", v))
                self.prefix = list(self.newdec)
                self.pos = len(self.prefix)
            if self.branch(rel(psub(x.p, pconst(v)), "==")
                           if not pisconst(psub(x.p, pconst(v))) else pval(x.p) == v):
                return v
            tried.append(v)
            if len(tried) > 400:
                raise Undecided("too many integer values")

    def realise(self, x):
        """Fallback: pin a symbolic real to a witness value (makes the path incomplete)."""
        self.stats.realised += 1
        self.realised_here += 1
        if self.witness is None:
            r, m = self.feasible()
            if r == "unsat":
                raise PathAbort()
            if m is None:
                raise Undecided("realise")
            self.set_witness(m)
        ids = sorted({a for mono in x.p for a, _ in mono})
        base = self._base_vars(ids)
        for aid in base:
            at = self.atoms[aid]
            v = Fraction(self.witness.get(at.name, 0.0)).limit_denominator(1 << 20)
            self.path.append(SB("rel", psub({((aid, 1),): F1}, pconst(v)), "=="))
            self.witness[at.name] = float(v)
        self.wcache = {}
        return float(self.ev(x.p))

    def _base_vars(self, ids, seen=None):
        seen = set() if seen is None else seen
        out = []
        for i in ids:
            if i in seen:
                continue
            seen.add(i)
            at = self.atoms[i]
            if at.kind in ("var", "int"):
                out.append(i)
            elif at.arg is not None:
                ps = self.atom_polys(at)
                for p in ps:
                    out += self._base_vars({a for m in p for a, _ in m}, seen)
        return out

    def token(self, x, spec):
        if x.isconst():
            v = float(pval(x.p))
            return format(v, spec)
        i = len(self.tokens)
        self.tokens.append((x, spec))
        return f"⟦{i}⟧"

    # ---- verdicts
    def check(self, cond, msg):
        """Prove cond on the current path for all inputs that follow it."""
        self.stats.asserts += 1
        self.reached.add(msg.split(" [")[0])
        if isinstance(cond, (bool, np.bool_)):
            if cond:
                self.stats.asserts_trivial += 1
                return
            neg = True
        else:
            neg = snot(cond)
        if neg is True:
            r, m = ("sat", None)
            r, m = self.feasible(None, self.assert_ms)
        else:
            r, m = self.feasible(neg, self.assert_ms)
        if r == "unsat":
            if neg is not True:
                self.path.append(cond)  # lemma
            return
        if r == "unknown":
            self.stats.undecided += 1
            self.undecided_msgs.append(msg)
            raise PathStop("undecided")
        self.report(msg, m, neg)

    def report(self, msg, model, neg=True):
        models = self.nicer_models(neg, model) + [model]
        v = Violation(msg, models, dict(self.choices))
        self.violations.append(v)
        if self.on_violation is not None:
            hit = self.on_violation(msg, models)
            if hit is not None and hit.get("outcome") == "violated":
                self.confirmed = hit
            else:
                self.spurious.append({"msg": msg, "model": models[0], "replay": hit})
        raise PathStop("violation")

    def nicer_models(self, neg, model):
        """Models on coarse grids, which survive the conversion to doubles."""
        out = []
        base = list(self.path) + ([neg] if isinstance(neg, SB) else [])
        for den in (8, 64, 1024):
            conds = list(base)
            ok = True
            cur = model
            for aid in self.inputs:
                at = self.atoms[aid]
                v = cur.get(at.name)
                if v is None:
                    continue
                g = Fraction(round(Fraction(v) * den), den)
                c = SB("rel", psub({((aid, 1),): F1}, pconst(g)), "==")
                try:
                    r, m = self.solve(conds + [c], 1500)
                except PathStop:
                    return out
                if r == "sat":
                    conds.append(c)
                    cur = m
                elif at.name.startswith(("cos_", "sin_")):
                    continue
                else:
                    ok = ok and True
            out.insert(0, cur)
        return out

    # ---- main loop
    def explore(self, fn):
        global ENG
        prev = ENG
        ENG = self
        self.worklist = [([], None)]
        self.all_reached: set = set()
        try:
            while self.worklist:
                if self.deadline is not None and time.time() > self.deadline:
                    self.incomplete = True
                    break
                if self.stats.paths >= self.max_paths:
                    self.incomplete = True
                    break
                prefix, model = self.worklist.pop()
                self.reset()
                self.prefix = list(prefix)
                if model is not None:
                    self.set_witness(model)
                elif not prefix:
                    self.set_witness({})
                self.stats.paths += 1
                try:
                    fn()
                    if self.witness is None and len(self.samples) < self.max_samples:
                        r, m = self.feasible()
                        if m is not None:
                            self.set_witness(m)
                    if self.witness is not None:
                        for aid in self.inputs:
                            if not self.atoms[aid].name.startswith(("cos_", "sin_")):
                                self.ev_atom(aid)
                        self.stats.paths_witnessed += 1
                        if len(self.samples) < self.max_samples:
                            self.samples.append(dict(self.witness))
                except PathAbort:
                    pass
                except PathStop as e:
                    if str(e) == "violation":
                        if self.confirmed or len(self.violations) >= self.max_violations:
                            self.incomplete = True
                            break
                except Undecided as e:
                    self.stats.undecided += 1
                    self.undecided_msgs.append(str(e))
                self.all_reached |= self.reached
        finally:
            ENG = prev
        return self


def ppow_raw(a, n):
    r = pconst(1)
    for _ in range(n):
        r = pmul_raw(r, a)
    return r


def deg(p):
    return max((sum(e for _, e in m) for m in p), default=0)


def is_linear(eng, b):
    if not isinstance(b, SB):
        return True
    if b._lin is None:
        if b.k == "rel":
            b._lin = deg(b.a) <= 1 and all(eng.atoms[a].kind != "sqrt" for m in b.a for a, _ in m)
        elif b.k == "not":
            b._lin = is_linear(eng, b.a)
        else:
            b._lin = all(is_linear(eng, x) for x in b.a)
    return b._lin


_CTX = z3.main_ctx()


def zmul(fs):
    arr = (z3.Ast * len(fs))(*[f.as_ast() for f in fs])
    return z3.ArithRef(z3.Z3_mk_mul(_CTX.ref(), len(fs), arr), _CTX)


def zsum(ts):
    arr = (z3.Ast * len(ts))(*[f.as_ast() for f in ts])
    return z3.ArithRef(z3.Z3_mk_add(_CTX.ref(), len(ts), arr), _CTX)


def scale_int(p):
    """Scale by a positive rational so that coefficients are integers."""
    l = 1
    for c in p.values():
        l = l * c.denominator // math.gcd(l, c.denominator)
    g = 0
    for c in p.values():
        g = math.gcd(g, int(c * l))
    k = Fraction(l, g or 1)
    return pscale(p, k)


def zc(c: Fraction):
    return z3.RealVal(str(c))


def zval(model, at):
    if at.z is None:
        v = Fraction(0)
        if at.lo is not None and v < at.lo:
            v = at.lo
        if at.hi is not None and v > at.hi:
            v = at.hi
        return v
    v = model.eval(at.z, model_completion=True)
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return None


def run_solver(zs, ms, lin, ints):
    if lin:
        s = z3.Solver() if ints else z3.SolverFor("QF_LRA")
        s.set("timeout", int(ms))
        s.add(zs)
        r = s.check()
        return str(r), (s.model() if r == z3.sat else None)
    if not ints:
        t = z3.TryFor(z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith",
                              "qfnra-nlsat"), int(ms))
        s = t.solver()
        s.add(zs)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r != z3.unknown:
            return str(r), (s.model() if r == z3.sat else None)
        ms = ms / 2
    s = z3.Solver()
    s.set("timeout", int(ms))
    s.add(zs)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    return str(r), (s.model() if r == z3.sat else None)


ENG: Engine = Engine()

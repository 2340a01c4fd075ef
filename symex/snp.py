"""A numpy look-alike whose float arrays may hold symbolic reals.

Float arrays are `SArr`, an object-dtype ndarray subclass (so views, slicing and in-place
updates behave as in numpy). Functions with no symbolic model fall through to numpy.
"""
from __future__ import annotations

import itertools
import math
import os
from fractions import Fraction

import numpy as np

from symex import core
from symex.core import (SB, SR, NUMT, Unsupported, rel, sabs, sand, scmp, sdiv, sfloor, smax,
                        smin, snot, sor, special, sround, ssqrt, topoly)

OBJ = np.dtype(object)


def is_sym(x):
    return isinstance(x, (SR, SB))


def wrap(x):
    if isinstance(x, np.ndarray) and x.dtype == OBJ and not isinstance(x, SArr):
        return x.view(SArr)
    return x


def elementwise(f, *arrs):
    arrs = [np.asarray(a) if not is_sym(a) else _obj0(a) for a in arrs]
    b = np.broadcast(*arrs) if len(arrs) > 1 else arrs[0]
    out = np.empty(b.shape, dtype=object)
    if len(arrs) == 1:
        flat = [(x,) for x in _flat(arrs[0])]
    else:
        flat = zip(*[_flat(np.broadcast_to(a.view(np.ndarray), b.shape)) for a in arrs])
    for ix, args in zip(np.ndindex(*b.shape), flat):
        out[ix] = f(*args)
    return _settle(out)


def _flat(a):
    a = a.view(np.ndarray)
    return [a[ix] for ix in np.ndindex(*a.shape)]


def _settle(out):
    """All-bool results become a plain bool array; otherwise keep symbolic."""
    if out.shape == ():
        return out[()]
    if out.size and all(isinstance(v, (bool, np.bool_)) for v in out.flat):
        return out.astype(bool)
    return out.view(SArr)


def _obj0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _cmp_fn(op):
    return lambda a, b: scmp(a, b, op)


def _min2(a, b):
    return smin([a, b])


def _max2(a, b):
    return smax([a, b])


def _isnan(x):
    return (not is_sym(x)) and bool(np.isnan(x))


def _isinf(x):
    return (not is_sym(x)) and bool(np.isinf(x))


def _sign(x):
    if not isinstance(x, SR):
        return np.sign(x)
    if x > 0:
        return np.float64(1.0)
    if x < 0:
        return np.float64(-1.0)
    return np.float64(0.0)


def _not(x):
    return snot(x) if isinstance(x, SB) else not x


def _truthy(x):
    if isinstance(x, SB):
        return x
    if isinstance(x, SR):
        return x != 0
    return bool(x)


def _mul(a, b):
    return a * b


def _hypot(a, b):
    return ssqrt(a * a + b * b)


def _deg2rad(x):
    return x * np.float64(math.pi / 180)


def _exp_unsup(*a):
    raise Unsupported("transcendental function")


def _conc(f):
    def g(*a):
        if any(isinstance(x, SR) and not x.isconst() for x in a):
            raise Unsupported(f"{f.__name__} of a symbolic value")
        return f(*[float(x) if isinstance(x, SR) else x for x in a])
    return g


def _ceil(x):
    return -sfloor(-x) if isinstance(x, SR) else np.ceil(x)


def _trunc(x):
    return core.strunc(x) if isinstance(x, SR) else np.trunc(x)


def _floordiv(a, b):
    if is_sym(a) or is_sym(b):
        return sfloor(sdiv(a, b))
    return a // b


def _mod(a, b):
    if is_sym(a) or is_sym(b):
        return a - sfloor(sdiv(a, b)) * b
    return a % b


def _div(a, b):
    return sdiv(a, b)


def _pow(a, b):
    if isinstance(a, SR):
        return a ** b
    if isinstance(b, SR):
        if b.isconst():
            return a ** float(b)
        raise Unsupported("symbolic exponent")
    return np.power(np.float64(a), b)


UF = {
    "less": _cmp_fn("<"), "less_equal": _cmp_fn("<="), "greater": _cmp_fn(">"),
    "greater_equal": _cmp_fn(">="), "equal": _cmp_fn("=="), "not_equal": _cmp_fn("!="),
    "sqrt": ssqrt, "absolute": sabs, "abs": sabs, "fabs": sabs,
    "minimum": _min2, "maximum": _max2, "fmin": _min2, "fmax": _max2,
    "isnan": _isnan, "isinf": _isinf, "isfinite": lambda x: not (_isnan(x) or _isinf(x)),
    "sign": _sign, "floor": lambda x: sfloor(x), "ceil": _ceil, "trunc": _trunc,
    "rint": lambda x: sround(x, 0),
    "sin": core.ssin, "cos": core.scos, "tan": core.stan,
    "arccos": core.sarccos, "arcsin": core.sarcsin,
    "square": lambda x: x * x, "hypot": _hypot, "divide": _div, "true_divide": _div,
    "power": _pow, "float_power": _pow, "reciprocal": lambda x: sdiv(1.0, x),
    "logical_and": lambda a, b: sand(_truthy(a), _truthy(b)),
    "logical_or": lambda a, b: sor(_truthy(a), _truthy(b)),
    "logical_not": lambda a: _not(_truthy(a)),
    "logical_xor": lambda a, b: sor(sand(_truthy(a), _not(_truthy(b))),
                                    sand(_not(_truthy(a)), _truthy(b))),
    "bitwise_and": lambda a, b: sand(a, b) if is_sym(a) or is_sym(b) else a & b,
    "bitwise_or": lambda a, b: sor(a, b) if is_sym(a) or is_sym(b) else a | b,
    "invert": lambda a: snot(a) if isinstance(a, SB) else (~a if not isinstance(a, bool) else not a),
    "floor_divide": _floordiv, "remainder": _mod, "mod": _mod,
    "deg2rad": _deg2rad, "radians": _deg2rad,
    "exp": _conc(np.exp), "log": _conc(np.log), "log10": _conc(np.log10), "log2": _conc(np.log2),
    "arctan": _conc(np.arctan), "arctan2": _conc(np.arctan2),
    "cbrt": _conc(np.cbrt), "log1p": _conc(np.log1p), "expm1": _conc(np.expm1),
    "tanh": _conc(np.tanh), "sinh": _conc(np.sinh), "cosh": _conc(np.cosh),
    "copysign": lambda a, b: sabs(a) if scmp(b, 0, ">=") else -sabs(a),
    "positive": lambda x: x,
    "spacing": _conc(np.spacing), "signbit": lambda x: scmp(x, 0, "<"),
}


class SArr(np.ndarray):
    __array_priority__ = 500

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [i.view(np.ndarray) if isinstance(i, np.ndarray) else i for i in inputs]
        name = ufunc.__name__
        kw.pop("dtype", None)
        kw.pop("casting", None)
        where = kw.pop("where", True)
        if where is not True:
            raise Unsupported("ufunc where=")
        if method == "__call__":
            if name == "matmul":
                res = matmul(*ins)
            elif name in UF:
                res = elementwise(UF[name], *ins)
            else:
                ins = [_obj0(i) if is_sym(i) else i for i in ins]
                res = getattr(ufunc, method)(*ins, **kw)
        elif method == "reduce" and name in ("minimum", "maximum", "logical_and", "logical_or",
                                             "add", "multiply"):
            f = {"minimum": amin, "maximum": amax, "logical_and": all_, "logical_or": any_,
                 "add": sum_, "multiply": prod_}[name]
            res = f(ins[0], axis=kw.get("axis", 0), keepdims=kw.get("keepdims", False))
        elif method == "outer":
            a, b = np.asarray(ins[0]), np.asarray(ins[1])
            res = ufunc(wrap(np.asarray(a, dtype=object)).reshape(a.shape + (1,) * b.ndim), b)
        elif method == "accumulate":
            res = getattr(ufunc, method)(*[np.asarray(i, dtype=object) for i in ins], **kw)
        elif method == "at":
            ufunc.at(ins[0], ins[1], *ins[2:])
            return None
        else:
            res = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            o = out[0]
            o.view(np.ndarray)[...] = res if not is_sym(res) else _obj0(res)
            return o
        return wrap(res)

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        mod = getattr(func, "__module__", "") or ""
        if "linalg" in mod and name in LINALG:
            return LINALG[name](*args, **kwargs)
        if name in FN:
            return FN[name](*args, **kwargs)
        return wrap(super().__array_function__(func, types, args, kwargs))

    # ---- methods
    def any(self, axis=None, out=None, keepdims=False, **k):
        return any_(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return all_(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return amin(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return amax(self, axis=axis, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return sum_(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return prod_(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return mean(self, axis=axis, keepdims=keepdims)

    def argmin(self, axis=None, out=None, **k):
        return argmin(self, axis)

    def argmax(self, axis=None, out=None, **k):
        return argmax(self, axis)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = sort(self, axis)

    def round(self, decimals=0, out=None):
        return round_(self, decimals)

    def clip(self, a_min=None, a_max=None, out=None, **k):
        return clip(self, a_min, a_max)

    def dot(self, b, out=None):
        return dot(self, b)

    def std(self, *a, **k):
        raise Unsupported("std")

    def nonzero(self):
        return np.nonzero(tobool(self))

    def astype(self, dtype, *a, **k):
        kind = dtkind(dtype)
        if kind == "f":
            return array(self, copy=True)
        if kind == "i":
            return np.array([int(x) for x in _flat(self)], dtype=realdt(dtype)).reshape(self.shape)
        if kind == "b":
            return tobool(self)
        if kind == "o":
            return self.copy()
        return np.asarray(self).view(np.ndarray).astype(dtype, *a, **k)

    def tolist(self):
        def conv(x):
            if isinstance(x, list):
                return [conv(y) for y in x]
            if isinstance(x, np.generic):
                return x.item()
            return x
        return conv(self.view(np.ndarray).tolist())

    def item(self, *a):
        v = self.view(np.ndarray).item(*a)
        return v

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous."
                             " Use a.any() or a.all()")
        v = _flat(self)[0]
        return bool(v)

    def __float__(self):
        return float(_flat(self)[0])

    def __int__(self):
        return int(_flat(self)[0])

    def __getitem__(self, key):
        r = super().__getitem__(_key(key))
        if isinstance(r, np.ndarray) and r.ndim == 0 and not (
                isinstance(key, tuple) and Ellipsis in [k for k in key if k is Ellipsis]):
            return r
        return r

    def __setitem__(self, key, val):
        if isinstance(val, np.ndarray):
            val = val.view(np.ndarray)
            if val.dtype.kind == "i" or val.dtype.kind == "f":
                val = val.astype(np.float64).astype(object, copy=True)
                val = _np64(val)
        elif isinstance(val, (list, tuple)):
            val = array(val).view(np.ndarray)
        elif isinstance(val, (float, int)) and not isinstance(val, bool):
            val = np.float64(val)
        elif is_sym(val):
            val = _obj0(val)
        if isinstance(val, np.ndarray) and val.ndim == 0:  # numpy may keep the 0-d array as the element
            val = val[()]
        super().__setitem__(_key(key), val)

    def _ip(self, r):
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._ip(self + o)

    def __isub__(self, o):
        return self._ip(self - o)

    def __imul__(self, o):
        return self._ip(self * o)

    def __itruediv__(self, o):
        return self._ip(self / o)

    def __ifloordiv__(self, o):
        return self._ip(self // o)

    def __ipow__(self, o):
        return self._ip(self ** o)

    def __imod__(self, o):
        return self._ip(self % o)

    def __str__(self):
        return "S" + str(self.view(np.ndarray).tolist())

    __repr__ = __str__

    def __reduce__(self):
        return super().__reduce__()

    def tobytes(self, order="C"):
        raise Unsupported("tobytes")

    def __contains__(self, x):
        return bool(any_(self == x))

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]


def _np64(val):
    """Object array of python floats -> object array of np.float64."""
    out = np.empty(val.shape, dtype=object)
    for ix in np.ndindex(*val.shape):
        v = val[ix]
        out[ix] = np.float64(v) if isinstance(v, (float, int, np.integer)) and not isinstance(v, bool) else v
    return out


def _key(key):
    if isinstance(key, tuple):
        return tuple(_key1(k) for k in key)
    return _key1(key)


def _key1(k):
    if isinstance(k, SArr):
        fl = _flat(k)
        if all(isinstance(x, (bool, np.bool_, SB)) for x in fl) and fl:
            return tobool(k)
        return np.array([int(x) for x in fl], dtype=np.int64).reshape(k.shape)
    if isinstance(k, SR):
        return int(k)
    if isinstance(k, SB):
        return bool(k)
    return k


def tobool(a):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=bool)
    for ix in np.ndindex(*a.shape):
        out[ix] = bool(_truthy(a.view(np.ndarray)[ix]))
    return out


# --------------------------------------------------------------------------- dtypes
def realdt(dt):
    if dt is None:
        return None
    r = getattr(dt, "_realdt", None)
    if r is not None and not isinstance(dt, np.dtype):
        return np.dtype(r)
    try:
        return np.dtype(dt)
    except TypeError:
        return OBJ


def dtkind(dt):
    if dt is None:
        return None
    d = realdt(dt)
    if d == OBJ:
        return "o"
    if d.kind in "fc":
        return "f"
    if d.kind in "iu":
        return "i"
    if d.kind == "b":
        return "b"
    return d.kind


def _has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, SArr):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


def _nested(x):
    """Nested sequence (possibly containing arrays) -> object ndarray."""
    if isinstance(x, np.ndarray):
        a = x.view(np.ndarray)
        if a.dtype != OBJ:
            o = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(*a.shape):
                o[ix] = a[ix]
            return o
        return a
    if isinstance(x, (list, tuple)) or (hasattr(x, "__iter__") and hasattr(x, "__len__")
                                        and not isinstance(x, (str, bytes, dict, set))):
        subs = [_nested(y) for y in x]
        if not subs:
            return np.empty((0,), dtype=object)
        shp = subs[0].shape
        for s in subs:
            if s.shape != shp:
                raise ValueError("setting an array element with a sequence. The requested array "
                                 "has an inhomogeneous shape")
        out = np.empty((len(subs),) + shp, dtype=object)
        for i, s in enumerate(subs):
            out[i] = s if shp else s[()]
        return out
    return _obj0(x)


def array(obj, dtype=None, copy=True, **kw):
    kind = dtkind(dtype)
    ndmin = kw.get("ndmin", 0)
    if kind in ("i", "b", "U", "S", "M", "m"):
        if _has_sym(obj):
            a = _nested(obj)
            conv = (lambda v: int(v)) if kind == "i" else (lambda v: bool(_truthy(v)))
            out = np.array([conv(v) for v in _flat(a)], dtype=realdt(dtype)).reshape(a.shape)
            return out
        return np.array(obj, dtype=realdt(dtype))
    if kind is None and not _has_sym(obj):
        a = np.array(obj)
        if a.dtype.kind not in "f":
            if a.dtype == OBJ and _all_num(a):
                return _fl(a)
            return a
        return _fl(a)
    a = _nested(obj)
    if a.size and all(isinstance(v, (bool, np.bool_, SB)) for v in _flat(a)) and kind is None:
        return a.view(SArr)
    r = _fl(a)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def _all_num(a):
    return all(isinstance(v, NUMT) or is_sym(v) for v in a.flat)


def _fl(a):
    """float array -> SArr holding np.float64 / SR"""
    out = np.empty(a.shape, dtype=object)
    src = a.view(np.ndarray)
    for ix in np.ndindex(*a.shape):
        v = src[ix]
        if isinstance(v, SB):
            out[ix] = v
        elif isinstance(v, SR):
            out[ix] = v
        elif isinstance(v, str):
            out[ix] = parse_float(v)
        elif v is None:
            out[ix] = np.float64("nan")
        else:
            out[ix] = np.float64(v)
    return out.view(SArr)


def parse_float(s):
    if isinstance(s, (SR, SB)):
        return s
    if isinstance(s, str):
        t = s.strip()
        if t.startswith("⟦") and t.endswith("⟧"):
            x, spec = core.ENG.tokens[int(t[1:-1])]
            return roundtrip(x, spec)
        if "⟦" in t:
            if t.startswith("-⟦") and t.endswith("⟧"):
                x, spec = core.ENG.tokens[int(t[2:-1])]
                return -roundtrip(x, spec)
            raise ValueError(f"could not convert string to float: {s!r}")
    return float(s)


def roundtrip(x, spec):
    """float(format(x, spec)): exact for default formatting (shortest repr round-trips)."""
    spec = spec.strip()
    if spec in ("", "r", "s") or spec.startswith(".17") or spec.startswith(".18"):
        return x
    m = spec.lstrip("<>+- 0123456789^")
    if m.startswith("."):
        body = m[1:]
        digs = ""
        while body and body[0].isdigit():
            digs += body[0]
            body = body[1:]
        d = int(digs or 0)
        if body[:1] in ("f", "F"):
            return sround(x, d)
        if body[:1] in ("e", "E", "g", "G"):
            # relative rounding: 2*|err| <= 10**-d * |x|
            dd = d if body[:1] in "eE" else d - 1
            if dd >= 17:
                return x
            e = core.ENG.var(f"fmt{len(core.ENG.atoms)}", -1, 1)
            return x + e * x * (Fraction(1, 2) / 10 ** dd)
    if m[:1] in ("f", "F"):
        return sround(x, 6)
    return sround(x, 6)


def asarray(obj, dtype=None, **kw):
    if isinstance(obj, SArr) and dtkind(dtype) in (None, "f", "o"):
        return obj
    if isinstance(obj, np.ndarray) and obj.dtype.kind in "iub" and dtype is None:
        return obj
    return array(obj, dtype)


def _create(npf):
    def f(shape, dtype=None, *a, **kw):
        kw.pop("order", None)
        kind = dtkind(dtype) or "f"
        if isinstance(shape, SR):
            shape = int(shape)
        elif isinstance(shape, (tuple, list)):
            shape = tuple(int(s) for s in shape)
        if kind in ("f", "o"):
            base = npf(shape) if npf is not np.empty else np.full(shape, 0.0)
            return _fl(base)
        return npf(shape, dtype=realdt(dtype))
    return f


def full(shape, fill_value, dtype=None, **kw):
    if isinstance(shape, SR):
        shape = int(shape)
    kind = dtkind(dtype)
    if kind in ("i", "b"):
        return np.full(shape, int(fill_value) if kind == "i" else bool(fill_value),
                       dtype=realdt(dtype))
    if kind is None and isinstance(fill_value, (bool, np.bool_, int, np.integer)):
        return np.full(shape, fill_value)
    out = np.empty(shape, dtype=object)
    if isinstance(fill_value, (list, tuple, np.ndarray)):
        out[...] = array(fill_value).view(np.ndarray)
    else:
        v = fill_value if is_sym(fill_value) else np.float64(fill_value)
        for ix in np.ndindex(*out.shape):
            out[ix] = v
    return out.view(SArr)


def _like(name):
    def f(a, *args, dtype=None, **kw):
        kw.pop("order", None)
        shp = kw.pop("shape", None) or np.shape(a)
        if dtype is None:
            d = a.dtype if isinstance(a, np.ndarray) else None
            dtype = float if (d is None or d == OBJ) else d
        if name == "full":
            return full(shp, args[0], dtype=dtype)
        return FN[name](shp, dtype)
    return f


def eye(N, M=None, k=0, dtype=float, **kw):
    a = np.eye(N, M, k)
    return _fl(a) if dtkind(dtype) in ("f", "o") else a.astype(realdt(dtype))


def arange(*args, dtype=None, **kw):
    if any(is_sym(a) for a in args):
        if len(args) == 1:
            start, stop, step = 0, args[0], 1
        elif len(args) == 2:
            start, stop, step = args[0], args[1], 1
        else:
            start, stop, step = args
        n = int(_ceil(sdiv(stop - start, step)))
        return array([start + step * i for i in range(n)])
    r = np.arange(*args, dtype=realdt(dtype))
    return _fl(r) if r.dtype.kind == "f" else r


def linspace(start, stop, num=50, endpoint=True, **kw):
    num = int(num)
    start, stop = asarray(start) if not is_sym(start) and np.ndim(start) else start, \
        asarray(stop) if not is_sym(stop) and np.ndim(stop) else stop
    div = (num - 1) if endpoint else num
    if not _has_sym(start) and not _has_sym(stop):
        r = np.linspace(start, stop, num, endpoint=endpoint)
        return _fl(r)
    return array([start + (stop - start) * Fraction(i, div) if div else start for i in range(num)])


# --------------------------------------------------------------------------- reductions
def _reduce(a, axis, f, keepdims=False):
    a = np.asarray(a) if not is_sym(a) else _obj0(a)
    if axis is None:
        r = f(_flat(a))
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = _obj0(r)
            return o.view(SArr)
        return r
    if isinstance(axis, tuple):
        axis = tuple(ax % a.ndim for ax in axis)
        rest = [i for i in range(a.ndim) if i not in axis]
        m = np.transpose(a.view(np.ndarray), rest + list(axis))
        m = m.reshape([a.shape[i] for i in rest] + [-1])
    else:
        ax = axis % a.ndim
        m = np.moveaxis(a.view(np.ndarray), ax, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for ix in np.ndindex(*m.shape[:-1]):
        out[ix] = f(_flat(m[ix]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return _settle(out)


def _native(a):
    return isinstance(a, np.ndarray) and not isinstance(a, SArr) and a.dtype != OBJ


def any_(a, axis=None, out=None, keepdims=False, **k):
    a = asarray(a) if not is_sym(a) else a
    if _native(a):
        return np.any(a, axis=axis, keepdims=keepdims)
    return _reduce(a, axis, lambda xs: sor(*[_truthy(x) for x in xs]), keepdims)


def all_(a, axis=None, out=None, keepdims=False, **k):
    a = asarray(a) if not is_sym(a) else a
    if _native(a):
        return np.all(a, axis=axis, keepdims=keepdims)
    return _reduce(a, axis, lambda xs: sand(*[_truthy(x) for x in xs]), keepdims)


def _nonempty(f):
    def g(xs):
        if not xs:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return f(xs)
    return g


def amin(a, axis=None, out=None, keepdims=False, initial=None, **k):
    a = asarray(a)
    if _native(a):
        return np.min(a, axis=axis, keepdims=keepdims)
    ini = [] if initial is None else [initial]
    return _reduce(a, axis, _nonempty(lambda xs: smin(list(xs) + ini)), keepdims)


def amax(a, axis=None, out=None, keepdims=False, initial=None, **k):
    a = asarray(a)
    if _native(a):
        return np.max(a, axis=axis, keepdims=keepdims)
    ini = [] if initial is None else [initial]
    return _reduce(a, axis, _nonempty(lambda xs: smax(list(xs) + ini)), keepdims)


def _sum(xs):
    t = None
    for x in xs:
        if isinstance(x, SB):
            x = x._num()
        t = x if t is None else t + x
    return np.float64(0.0) if t is None else t


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarray(a) if not hasattr(a, "__next__") else array(list(a))
    if _native(a):
        return np.sum(a, axis=axis, keepdims=keepdims)
    return _reduce(a, axis, _sum, keepdims)


def prod_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarray(a)
    if _native(a):
        return np.prod(a, axis=axis, keepdims=keepdims)

    def f(xs):
        t = np.float64(1.0)
        for x in xs:
            t = t * x
        return t
    return _reduce(a, axis, f, keepdims)


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarray(a)
    if _native(a):
        return np.mean(a, axis=axis, keepdims=keepdims)

    def f(xs):
        if not xs:
            return np.float64("nan")
        return sdiv(_sum(xs), len(xs))
    return _reduce(a, axis, f, keepdims)


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    a = asarray(a)
    w = asarray(weights)
    if w.ndim == 1 and a.ndim == 2 and axis in (0, None):
        if axis is None:
            raise Unsupported("average")
        return wrap((wrap(w.reshape(-1, 1)) * a).sum(axis=0)) / sum_(w)
    return sum_(a * w, axis=axis) / sum_(w, axis=axis)


def _argext(xs, op):
    best = 0
    for i in range(1, len(xs)):
        if scmp(xs[i], xs[best], op):
            best = i
    return best


def argmin(a, axis=None, **k):
    a = asarray(a)
    if _native(a):
        return np.argmin(a, axis=axis)
    if axis is None:
        return _argext(_flat(a), "<")
    r = _reduce(a, axis, lambda xs: _argext(xs, "<"))
    return np.asarray(r).view(np.ndarray).astype(np.int64) if isinstance(r, np.ndarray) else r


def argmax(a, axis=None, **k):
    a = asarray(a)
    if _native(a):
        return np.argmax(a, axis=axis)
    if axis is None:
        return _argext(_flat(a), ">")
    r = _reduce(a, axis, lambda xs: _argext(xs, ">"))
    return np.asarray(r).view(np.ndarray).astype(np.int64) if isinstance(r, np.ndarray) else r


def argsort(a, axis=-1, **k):
    a = asarray(a)
    if _native(a):
        return np.argsort(a, axis=axis)
    if a.ndim != 1:
        raise Unsupported("argsort of a matrix")
    import functools
    xs = _flat(a)
    return np.array(sorted(range(len(xs)), key=functools.cmp_to_key(
        lambda i, j: -1 if scmp(xs[i], xs[j], "<") else (1 if scmp(xs[i], xs[j], ">") else 0))),
        dtype=np.int64)


def sort(a, axis=-1, **k):
    a = asarray(a)
    if _native(a):
        return np.sort(a, axis=axis)
    if a.ndim == 1:
        return a[argsort(a)]
    m = np.moveaxis(a, axis, -1).copy()
    for ix in np.ndindex(*m.shape[:-1]):
        m[ix] = sort(wrap(m[ix]))
    return wrap(np.moveaxis(m, -1, axis))


# --------------------------------------------------------------------------- closeness
def _close1(a, b, rtol, atol):
    """|a-b| <= atol + rtol*|b| without forking on signs."""
    if not is_sym(a) and not is_sym(b) and not is_sym(rtol) and not is_sym(atol):
        return bool(np.isclose(np.float64(a), np.float64(b), rtol=rtol, atol=atol))
    if special(a) or special(b):
        return False
    d = a - b
    tols = [atol + b * np.float64(rtol), atol - b * np.float64(rtol)] if rtol != 0 else [atol]
    cs = []
    for t in tols:
        cs.append(sand(scmp(d, t, "<="), scmp(-d, t, "<=")))
    return sor(*cs)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if isinstance(a, SArr) or isinstance(b, SArr) or is_sym(a) or is_sym(b) or \
            isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
        a = a if is_sym(a) else asarray(a)
        b = b if is_sym(b) else asarray(b)
        return elementwise(lambda x, y: _close1(x, y, rtol, atol), a, b)
    return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    r = all_(r) if isinstance(r, np.ndarray) else r
    return bool(r) if not isinstance(r, SB) else r


def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    r = all_(a == b)
    return r


# --------------------------------------------------------------------------- linear algebra
def norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if _native(x):
        return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
    if ord not in (None, 2, "fro"):
        if ord == 1:
            return _reduce(x, axis, lambda xs: _sum([sabs(v) for v in xs]), keepdims)
        if ord in (np.inf,):
            return _reduce(x, axis, lambda xs: smax([sabs(v) for v in xs]), keepdims)
        raise Unsupported("norm ord")
    return _reduce(x, axis, _norm1, keepdims)


def _norm1(xs):
    if not any(is_sym(v) for v in xs):
        return np.float64(np.linalg.norm(np.array([float(v) for v in xs])))
    if any(special(v) for v in xs):
        return np.float64("nan") if any(special(v) and math.isnan(v) for v in xs) else np.float64("inf")
    nz = [v for v in xs if not (isinstance(v, SR) and not v.p) and not (not is_sym(v) and v == 0)]
    if not nz:
        return np.float64(0.0)
    if len(nz) == 1:
        return sabs(nz[0])
    return ssqrt(_sum([v * v for v in nz]))


def cross(a, b, axis=-1, **k):
    a, b = asarray(a), asarray(b)
    a, b = _o(a), _o(b)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return wrap(a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0])
    if a.shape[-1] == 2:
        a = np.concatenate([a, np.zeros(a.shape[:-1] + (1,), dtype=object)], axis=-1)
    if b.shape[-1] == 2:
        b = np.concatenate([b, np.zeros(b.shape[:-1] + (1,), dtype=object)], axis=-1)
    a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
    b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
    return stack([a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0], axis=-1)


def _o(a):
    return a.view(np.ndarray) if isinstance(a, SArr) else (
        _fl(a).view(np.ndarray) if a.dtype.kind in "iuf" else a)


def stack(arrs, axis=0, **k):
    arrs = [a if isinstance(a, np.ndarray) else (_obj0(a) if is_sym(a) else asarray(a)) for a in arrs]
    r = np.stack([_as_nd(a) for a in arrs], axis=axis)
    return _rewrap(r)


def _as_nd(a):
    return a.view(np.ndarray) if isinstance(a, np.ndarray) else a


def _rewrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == OBJ:
            r2 = _np64(r.view(np.ndarray)) if any(
                isinstance(v, (float, int)) and not isinstance(v, (bool, np.floating)) for v in r.flat) else r
            return r2.view(SArr)
        if r.dtype.kind == "f":
            return _fl(r)
    return r


def dot(a, b, out=None):
    if is_sym(a) or is_sym(b) or np.ndim(a) == 0 or np.ndim(b) == 0:
        return a * b
    a, b = asarray(a), asarray(b)
    if _native(a) and _native(b):
        return np.dot(a, b)
    a, b = _o(a), _o(b)
    if a.shape[-1] == 0:
        return np.float64(0.0)
    r = np.dot(a, b)
    return wrap(r)


def matmul(a, b, **k):
    a, b = asarray(a), asarray(b)
    if _native(a) and _native(b):
        return np.matmul(a, b)
    a, b = _o(a), _o(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return wrap(np.dot(a, b))
    return wrap(np.matmul(a, b))


def inner(a, b):
    a, b = asarray(a), asarray(b)
    return wrap(np.inner(_o(a), _o(b)))


def vdot(a, b):
    return dot(asarray(a).ravel(), asarray(b).ravel())


def outer(a, b):
    return wrap(np.multiply.outer(_o(asarray(a).ravel()), _o(asarray(b).ravel())))


def einsum(spec, *ops, **k):
    ops = [_o(asarray(o)) for o in ops]
    spec = spec.replace(" ", "")
    lhs, rhs = spec.split("->") if "->" in spec else (spec, None)
    ins = lhs.split(",")
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    if rhs is None:
        cnt = {}
        for s in ins:
            for c in s:
                cnt[c] = cnt.get(c, 0) + 1
        rhs = "".join(sorted(c for c, n in cnt.items() if n == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in rhs]
    out = np.empty([dims[c] for c in rhs], dtype=object)
    for ix in np.ndindex(*out.shape):
        env = dict(zip(rhs, ix))
        t = None
        for sx in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, sx))
            v = None
            for s, o in zip(ins, ops):
                e = o[tuple(env[c] for c in s)]
                v = e if v is None else v * e
            t = v if t is None else t + v
        out[ix] = np.float64(0.0) if t is None else t
    return _settle(out) if out.shape else out[()]


def det(a):
    a = _o(asarray(a))
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    t = None
    for j in range(n):
        if not is_sym(a[0, j]) and a[0, j] == 0:
            continue
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        v = a[0, j] * det(wrap(minor))
        if j % 2:
            v = -v
        t = v if t is None else t + v
    return np.float64(0.0) if t is None else t


def solve(a, b):
    a, b = asarray(a), asarray(b)
    n = a.shape[0]
    D = det(a)
    if scmp(D, 0, "=="):
        raise np.linalg.LinAlgError("Singular matrix")
    if b.ndim == 1:
        out = []
        for j in range(n):
            m = array(a)
            m[:, j] = b
            out.append(sdiv(det(m), D))
        return array(out)
    return stack([solve(a, b[:, j]) for j in range(b.shape[1])], axis=1)


def inv(a):
    return solve(a, eye(a.shape[0]))


def lstsq(a, b, rcond=None):
    """Least squares through the normal equations (full column rank), else minimum norm."""
    a, b = asarray(a), asarray(b)
    if _native(a):
        a = _fl(a)
    A = _o(a)
    At = A.T
    N = wrap(np.dot(At, A))
    rhs = wrap(np.dot(At, _o(b)))
    D = det(N)
    n = A.shape[1]
    if scmp(D, 0, "=="):
        if n == 2:
            # rank <= 1: x = t * (row direction); minimum-norm solution A^+ b = A^T b / ||A||_F^2
            f = _sum([v * v for v in A.flat])
            if scmp(f, 0, "=="):
                return zeros_(n), array([]), 0, array([0.0, 0.0])
            x = elementwise(lambda v: sdiv(v, f), rhs)
            return x, array([]), 1, array([0.0, 0.0])
        raise Unsupported("rank-deficient lstsq")
    x = solve(N, rhs)
    r = elementwise(lambda p, q: p - q, wrap(np.dot(A, _o(x))), b)
    res = array([_sum([v * v for v in _flat(r)])]) if A.shape[0] > n else array([])
    return x, res, n, array([1.0] * n)


def matrix_rank(a, *k, **kw):
    a = asarray(a)
    if not any(is_sym(v) for v in _flat(a)):
        return np.linalg.matrix_rank(a.view(np.ndarray).astype(float), *k, **kw)
    raise Unsupported("matrix_rank")


def zeros_(n):
    return _fl(np.zeros(n))


def trace(a, **k):
    a = asarray(a)
    return _sum([a[i, i] for i in range(min(a.shape))])


# --------------------------------------------------------------------------- files
def save(file, arr, **k):
    """np.save contract: np.load(file) returns an equal array (kept in memory)."""
    name = str(file)
    if not name.endswith(".npy"):
        name += ".npy"
    with open(name, "wb") as f:
        f.write(b"symbolic array")
    core.ENG.files[os.path.abspath(name)] = array(arr) if _has_sym(arr) or not _native(arr) else np.array(arr)


def load(file, **k):
    name = os.path.abspath(str(file))
    if not os.path.exists(name) or name not in core.ENG.files:
        if os.path.exists(name):
            return _rewrap(np.load(name, **k))
        raise FileNotFoundError(name)
    v = core.ENG.files[name]
    return v.copy()


# --------------------------------------------------------------------------- misc functions
def where(c, *xy):
    if not xy:
        return np.nonzero(tobool(c))
    x, y = xy
    xo = _obj0(x) if is_sym(x) else asarray(x)
    yo = _obj0(y) if is_sym(y) else asarray(y)
    co = _obj0(c) if is_sym(c) else np.asarray(c)
    if _native(co) and _native(xo) and _native(yo):
        return np.where(co, xo, yo)
    return elementwise(lambda cc, a, b: a if bool(_truthy(cc)) else b, co, xo, yo)


def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)

    def f(x):
        if a_min is not None:
            x = smax([x, a_min])
        if a_max is not None:
            x = smin([x, a_max])
        return x
    if is_sym(a) or np.ndim(a) == 0:
        return f(a)
    a = asarray(a)
    if _native(a) and not is_sym(a_min) and not is_sym(a_max):
        return np.clip(a, a_min, a_max)
    if isinstance(a_min, np.ndarray) or isinstance(a_max, np.ndarray):
        r = a
        if a_min is not None:
            r = elementwise(_max2, r, a_min)
        if a_max is not None:
            r = elementwise(_min2, r, a_max)
        return r
    return elementwise(f, a)


def round_(a, decimals=0, out=None):
    if is_sym(a):
        return sround(a, decimals)
    if not isinstance(a, (np.ndarray, list, tuple)):
        return np.round(a, decimals)
    a = asarray(a)
    if _native(a):
        return np.round(a, decimals)
    return elementwise(lambda x: sround(x, decimals), a)


def around(a, decimals=0, **k):
    return round_(a, decimals)


def diff(a, n=1, axis=-1, **k):
    a = asarray(a)
    if _native(a):
        return np.diff(a, n=n, axis=axis)
    sl1 = [slice(None)] * a.ndim
    sl2 = [slice(None)] * a.ndim
    sl1[axis] = slice(1, None)
    sl2[axis] = slice(None, -1)
    r = a[tuple(sl1)] - a[tuple(sl2)]
    return diff(r, n - 1, axis) if n > 1 else r


def ptp(a, axis=None, **k):
    return amax(a, axis) - amin(a, axis)


def isscalar(x):
    return is_sym(x) or np.isscalar(x)


def ndim(x):
    return 0 if is_sym(x) else (x.ndim if isinstance(x, np.ndarray) else np.ndim(x))


def shape(x):
    return () if is_sym(x) else (x.shape if isinstance(x, np.ndarray) else np.shape(x))


def count_nonzero(a, axis=None, **k):
    return np.count_nonzero(tobool(a), axis=axis)


def nonzero(a):
    return np.nonzero(tobool(a))


class _FMeta(type):
    def __call__(cls, x=0.0):
        if is_sym(x):
            return x if not isinstance(x, SB) else x._num()
        if isinstance(x, np.ndarray):
            return array(x) if x.ndim else cls(x[()])
        if isinstance(x, (list, tuple)):
            return array(x)
        v = parse_float(x) if isinstance(x, str) else x
        if is_sym(v):
            return v
        return cls._ctor(v)

    def __instancecheck__(cls, x):
        return isinstance(x, (SR, cls._realdt))

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._realdt) or c is SR

    def __eq__(cls, o):
        return o is cls or o == cls._realdt

    def __hash__(cls):
        return hash(cls._realdt)


class float64(metaclass=_FMeta):
    _realdt = np.float64
    _ctor = np.float64


class float32(metaclass=_FMeta):
    _realdt = np.float32
    _ctor = np.float64


class SymFloat(metaclass=_FMeta):
    """Stands in for the builtin float."""
    _realdt = float
    _ctor = float
    fromhex = float.fromhex


class _IMeta(type):
    def __call__(cls, x=0, *a):
        if isinstance(x, SR):
            return x.__int__()
        if isinstance(x, SB):
            return x._num()
        if isinstance(x, SArr):
            return int(_flat(x)[0])
        return int(x, *a)

    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SymInt(metaclass=_IMeta):
    """Stands in for the builtin int."""
    _realdt = int
    from_bytes = int.from_bytes


def cumsum(a, axis=None, **k):
    a = asarray(a)
    if _native(a):
        return np.cumsum(a, axis=axis)
    if axis is None:
        return wrap(np.array(list(itertools.accumulate(_flat(a))) + [None], dtype=object)[:-1])
    return wrap(np.add.accumulate(a.view(np.ndarray), axis=axis))


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = asarray(a)
    if _native(a):
        return np.unique(a, return_index=return_index, return_inverse=return_inverse,
                         return_counts=return_counts, axis=axis)
    if return_index or return_inverse or return_counts or axis is not None:
        raise Unsupported("unique with options")
    xs = _flat(sort(a.ravel()))
    out = []
    for x in xs:
        if not out or scmp(x, out[-1], "!="):
            out.append(x)
    return array(out)


def isin(a, b, **k):
    b = [x for x in (b if isinstance(b, (list, tuple, set)) else _flat(asarray(b)))]
    return elementwise(lambda x: sor(*[scmp(x, y, "==") for y in b]), asarray(a))


def finfo_eps():
    return np.finfo(float)


FN = {
    "array": array, "asarray": asarray, "ascontiguousarray": asarray, "asanyarray": asarray,
    "asfarray": asarray, "copy": lambda a, **k: array(a) if not _native(a) else a.copy(),
    "zeros": _create(np.zeros), "ones": _create(np.ones), "empty": _create(np.empty),
    "full": full, "zeros_like": _like("zeros"), "ones_like": _like("ones"),
    "empty_like": _like("empty"), "full_like": _like("full"), "eye": eye,
    "identity": lambda n, dtype=float, **k: eye(n, dtype=dtype),
    "arange": arange, "linspace": linspace,
    "any": any_, "all": all_, "min": amin, "max": amax, "amin": amin, "amax": amax,
    "nanmin": amin, "nanmax": amax,
    "sum": sum_, "prod": prod_, "mean": mean, "average": average,
    "argmin": argmin, "argmax": argmax, "argsort": argsort, "sort": sort,
    "isclose": isclose, "allclose": allclose, "array_equal": array_equal,
    "array_equiv": array_equal,
    "cross": cross, "dot": dot, "matmul": matmul, "inner": inner, "vdot": vdot, "outer": outer,
    "einsum": einsum, "trace": trace,
    "stack": stack, "where": where, "clip": clip, "round": round_, "around": around,
    "round_": round_, "diff": diff, "ptp": ptp, "isscalar": isscalar, "ndim": ndim,
    "shape": shape, "count_nonzero": count_nonzero, "nonzero": nonzero, "cumsum": cumsum,
    "unique": unique, "isin": isin, "float64": float64, "float32": float32, "double": float64,
    "save": save, "load": load,
}
LINALG = {"norm": norm, "det": det, "solve": solve, "inv": inv, "lstsq": lstsq,
          "matrix_rank": matrix_rank, "cross": cross}


def _uf_call(name):
    npf = getattr(np, name)

    def f(*args, out=None, **kw):
        kw.pop("dtype", None)
        if any(_has_sym(a) for a in args):
            args2 = [a if is_sym(a) else (asarray(a) if isinstance(a, (list, tuple)) else a)
                     for a in args]
            if all(is_sym(a) or np.ndim(a) == 0 for a in args2):
                r = UF[name](*[a.item() if isinstance(a, np.ndarray) else a for a in args2])
            else:
                r = elementwise(UF[name], *args2)
            if out is not None:
                o = out[0] if isinstance(out, tuple) else out
                o[...] = r
                return o
            return r
        return _rewrap(npf(*args, **kw)) if out is None else npf(*args, out=out, **kw)
    f.__name__ = name
    return f


def _generic(fn):
    def f(*args, **kw):
        args = [_fix(a) for a in args]
        kw = {k: (v if k != "dtype" else realdt(v)) for k, v in kw.items()}
        if kw.get("dtype") is not None and any(_has_sym(a) for a in args) and dtkind(kw["dtype"]) == "f":
            kw.pop("dtype")
        return _rewrap(fn(*args, **kw))
    f.__name__ = getattr(fn, "__name__", "f")
    return f


def _fix(a):
    if is_sym(a):
        return _obj0(a).view(SArr)
    if isinstance(a, (list, tuple)) and any(_has_sym(x) for x in a):
        return type(a)(_fix(x) if not isinstance(x, (list, tuple)) else array(x) for x in a) \
            if any(isinstance(x, (np.ndarray, list, tuple)) for x in a) else array(a)
    return a


class _Linalg:
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        if name in LINALG:
            return LINALG[name]
        fn = getattr(np.linalg, name)
        return _generic(fn) if callable(fn) else fn


class _Random:
    """np.random stub: uniform samples are unconstrained symbolic values of the interval."""

    def __init__(self):
        self.n = 0

    def _u(self, lo, hi):
        eng = core.ENG
        if eng.rnd_queue:
            return eng.rnd_queue.pop(0)
        i = eng.rnd_n
        eng.rnd_n += 1
        x = eng.var(f"rnd{i}", lo, hi)
        if hi is not None and hi > lo:
            eng.assume(scmp(x, hi, "<"))
        return x

    def random(self, size=None):
        return self._many(size, 0, 1)

    random_sample = random

    def rand(self, *size):
        return self._many(size or None, 0, 1)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + self._many(size, 0, 1) * (high - low)

    def _many(self, size, lo, hi):
        if core.CONCRETE:
            return np.random.random(size)
        if size is None:
            return self._u(lo, hi)
        shp = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        out = np.empty(shp, dtype=object)
        for ix in np.ndindex(*shp):
            out[ix] = self._u(lo, hi)
        return out.view(SArr)

    def __getattr__(self, name):
        return getattr(np.random, name)


class NP:
    """The stand-in for the numpy module."""

    linalg = _Linalg()
    random = _Random()
    ndarray = np.ndarray
    __name__ = "numpy"

    def __getattr__(self, name):
        if name in FN:
            v = FN[name]
        else:
            v = getattr(np, name)
            if isinstance(v, np.ufunc):
                v = _uf_call(name) if name in UF else _generic(v)
            elif callable(v) and not isinstance(v, type):
                v = _generic(v)
        self.__dict__[name] = v
        return v


np_shim = NP()
core.CONCRETE = False

"""Load /repo's building3d from its current source into a symbolic environment.

Each building3d module is executed from its source file with its own builtins dictionary,
in which `import numpy`, `import math`, `import json`, `float`, `int`, `min`, ... resolve to
look-alikes that accept symbolic values. Nothing in the repository is edited, and no
function of the repository is replaced.
"""
from __future__ import annotations

import builtins
import importlib.abc
import importlib.machinery
import math
import os
import sys
import types

import numpy as np

from symex import core, snp
from symex.core import SB, SR

REPO = os.environ.get("VERIF_REPO", "/repo")


# --------------------------------------------------------------------------- math / json
class MathShim:
    def __getattr__(self, name):
        table = {
            "sqrt": core.ssqrt, "sin": core.ssin, "cos": core.scos, "tan": core.stan,
            "acos": core.sarccos, "asin": core.sarcsin, "fabs": core.sabs,
            "hypot": lambda *a: snp._norm1(list(a)),
            "floor": lambda x: x.__floor__() if isinstance(x, SR) else math.floor(x),
            "ceil": lambda x: x.__ceil__() if isinstance(x, SR) else math.ceil(x),
            "trunc": lambda x: int(x),
            "isnan": lambda x: False if isinstance(x, SR) else math.isnan(x),
            "isinf": lambda x: False if isinstance(x, SR) else math.isinf(x),
            "isfinite": lambda x: True if isinstance(x, SR) else math.isfinite(x),
            "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: _misclose(a, b, rel_tol, abs_tol),
            "pow": lambda a, b: snp._pow(a, b),
            "dist": lambda a, b: snp._norm1([x - y for x, y in zip(a, b)]),
            "fsum": lambda xs: snp._sum(list(xs)),
            "prod": lambda xs, start=1: snp.prod_(list(xs)) * start,
            "radians": snp._deg2rad,
            "copysign": snp.UF["copysign"],
        }
        if name in table:
            sym = table[name]
            real = getattr(math, name)

            def f(*a, **k):
                if any(snp._has_sym(x) for x in a):
                    return sym(*a, **k)
                return real(*a, **k)
            return f
        return getattr(math, name)


def _misclose(a, b, rel_tol, abs_tol):
    if not snp.is_sym(a) and not snp.is_sym(b):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = core.sabs(a - b)
    return bool(core.sor(core.scmp(d, core.sabs(a) * rel_tol, "<="),
                         core.scmp(d, core.sabs(b) * rel_tol, "<="),
                         core.scmp(d, abs_tol, "<=")))


class JsonShim:
    """json whose numbers may be symbolic; contract: a number is read back as written."""

    def __init__(self):
        import json
        self._j = json

    def _enc(self, o):
        if isinstance(o, SR):
            return core.ENG.token(o, "")
        if isinstance(o, dict):
            return {(self._enc(k) if isinstance(k, SR) else k): self._enc(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [self._enc(v) for v in o]
        return o

    def _dec(self, o):
        if isinstance(o, str) and o.startswith("⟦") and o.endswith("⟧"):
            return snp.parse_float(o)
        if isinstance(o, dict):
            return {k: self._dec(v) for k, v in o.items()}
        if isinstance(o, list):
            return [self._dec(v) for v in o]
        return o

    def dumps(self, o, **k):
        return self._j.dumps(self._enc(o), **k)

    def dump(self, o, fp, **k):
        fp.write(self.dumps(o, **k))

    def loads(self, s, **k):
        return self._dec(self._j.loads(s, **k))

    def load(self, fp, **k):
        return self.loads(fp.read(), **k)

    def __getattr__(self, n):
        return getattr(self._j, n)


class UuidShim:
    """uuid whose uuid4 is a deterministic stream of distinct ids (restarted on each path)."""

    def __init__(self):
        import uuid
        self._u = uuid
        self.n = 0

    def uuid4(self):
        self.n += 1
        import hashlib
        return self._u.UUID(bytes=hashlib.md5(str(self.n).encode()).digest(), version=4)

    uuid1 = uuid4

    def __getattr__(self, n):
        return getattr(self._u, n)


class DotbimShim:
    """dotbimpy whose files may hold symbolic numbers; contract: save() writes the attributes of
    the objects as JSON (the real one goes through jsonpickle)."""

    def __getattr__(self, name):
        import dotbimpy
        if name != "File":
            return getattr(dotbimpy, name)
        mods = tuple(getattr(dotbimpy, k) for k in ("Mesh", "Element", "Color", "Rotation", "Vector"))

        def plain(o):
            if _real_isinstance(o, mods):
                return {k: plain(v) for k, v in vars(o).items()}
            if _real_isinstance(o, dict):
                return {k: plain(v) for k, v in o.items()}
            if _real_isinstance(o, (list, tuple)):
                return [plain(v) for v in o]
            return o

        class File(dotbimpy.File):
            def save(self, path):
                if path[-4:] != ".bim":
                    raise Exception("Path should end up with .bim extension")
                with open(path, "w") as f:
                    f.write(JSON.dumps({k: plain(v) for k, v in vars(self).items()}))
        return File


MATH = MathShim()
JSON = JsonShim()
UUID = UuidShim()
STUBS = {"numpy": snp.np_shim, "math": MATH, "json": JSON, "uuid": UUID,
         "dotbimpy": DotbimShim()}


_STATE: dict = {}


def _restore_module_state():
    """Module-level containers of the repository start every path as they were on import."""
    for name, mod in list(sys.modules.items()):
        if name != "building3d" and not name.startswith("building3d."):
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith("__") or not _real_isinstance(v, (dict, list, set)):
                continue
            key = (name, k)
            if key not in _STATE:
                _STATE[key] = (v, v.copy())
            obj, init = _STATE[key]
            if obj is v and v != init:
                v.clear()
                v.extend(init) if _real_isinstance(v, list) else v.update(init)


def reset_stubs():
    UUID.n = 0
    _restore_module_state()
    for f in RESETS:
        f()


RESETS: list = []


# --------------------------------------------------------------------------- builtins
_real_import = builtins.__import__
_real_isinstance = isinstance


def _sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in STUBS:
            return STUBS[name]
        if name.startswith("numpy."):
            if name == "numpy.linalg":
                if fromlist:
                    return snp.np_shim.linalg
                return snp.np_shim
            if name == "numpy.random":
                return snp.np_shim.random if fromlist else snp.np_shim
    return _real_import(name, globals, locals, fromlist, level)


def _sym_isinstance(x, cls):
    if _real_isinstance(x, SR):
        cs = cls if _real_isinstance(cls, tuple) else (cls,)
        for c in cs:
            if c in (float, np.floating, np.float64, np.number, complex):
                return True
    return _real_isinstance(x, cls)


def _minmax(kind):
    real = getattr(builtins, kind)
    f = core.smin if kind == "min" else core.smax

    def g(*a, **k):
        if not k:
            xs = None
            if len(a) == 1:
                xs = list(a[0])
                a = (xs,)
            else:
                xs = list(a)
            if any(_real_isinstance(x, SR) for x in xs) and all(
                    _real_isinstance(x, (SR,) + core.NUMT) for x in xs):
                return f(xs)
        return real(*a, **k)
    return g


def _sym_abs(x):
    return core.sabs(x) if _real_isinstance(x, SR) else abs(x)


def _sym_round(x, n=None):
    if _real_isinstance(x, SR):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def _sym_sum(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


def _sym_bool(x=False):
    return bool(x)


def make_builtins():
    d = dict(vars(builtins))
    d["__import__"] = _sym_import
    d["float"] = snp.SymFloat
    d["int"] = snp.SymInt
    d["min"] = _minmax("min")
    d["max"] = _minmax("max")
    d["abs"] = _sym_abs
    d["round"] = _sym_round
    d["sum"] = _sym_sum
    d["isinstance"] = _sym_isinstance
    return d


BUILTINS = make_builtins()


# --------------------------------------------------------------------------- import hook
class _Loader(importlib.abc.Loader):
    def __init__(self, inner):
        self.inner = inner

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = self.inner.path
        with open(path, encoding="utf-8") as f:
            src = f.read()
        module.__dict__["__builtins__"] = BUILTINS
        exec(compile(src, path, "exec"), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "building3d" and not name.startswith("building3d."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            name, path if path is not None else [REPO])
        if spec is None or spec.loader is None:
            return spec
        spec.loader = _Loader(spec.loader)
        return spec


_installed = False


def install():
    global _installed
    if _installed:
        return
    assert os.environ.get("NUMBA_DISABLE_JIT") == "1"
    assert not any(m == "building3d" or m.startswith("building3d.") for m in sys.modules)
    sys.meta_path.insert(0, _Finder())
    _installed = True


# --------------------------------------------------------------------------- coverage
class Tracer:
    """Names of the building3d functions entered (sys.monitoring, near-zero overhead)."""

    def __init__(self):
        self.seen: set = set()

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(3, "symex")
        except ValueError:
            pass
        root = os.path.join(REPO, "building3d") + os.sep

        def cb(code, off):
            if code.co_filename.startswith(root) and not code.co_name.startswith("<"):
                mod = code.co_filename[len(root):-3].replace(os.sep, ".")
                self.seen.add(f"{mod}.{code.co_qualname}")
            return m.DISABLE
        m.register_callback(3, m.events.PY_START, cb)
        m.set_events(3, m.events.PY_START)

    def stop(self):
        m = sys.monitoring
        m.set_events(3, 0)
        m.free_tool_id(3)

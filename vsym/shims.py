"""Stand-ins for math, numpy, sys, warnings, logging seen by the code under test.

They dispatch on the value: a symbolic value (exact Sym, or a Taylor model of the enclosure engine)
is handled symbolically; everything else goes to the real library.
"""
from __future__ import annotations
import builtins
import logging
import math
import types
import warnings

import numpy as np

from . import term
from .term import Sym, NSym, Unsupported, decide, npy, plain, _isnp

REALFLOAT = float
REALINT = int


class Backend:
    """how concrete numbers are treated: 'exact' lifts them to Sym, 'num' leaves them floats"""
    kind = "exact"


BK = Backend()


def issym(x):
    return isinstance(x, Sym) or getattr(x, "is_tm", False)


# ------------------------------------------------------------------ exact scalar functions
def _tr(fn):
    def f(x):
        s, c = term.sincos(x)
        return s if fn == "sin" else c
    return f


def _domain(np_like, msg="math domain error"):
    if np_like:
        term.CTX.np_warning("invalid value encountered")
        return REALFLOAT("nan")
    raise ValueError(msg)


def x_sqrt(x, n):
    x = Sym.lift(x)
    if isinstance(x, float):
        return x
    if decide(x, "<"):
        return _domain(n)
    return term.ssqrt(x)


def x_asin(x, n):
    r = term.sasin(x)
    return _domain(n) if r is None else r


def x_acos(x, n):
    r = term.sasin(x, True)
    return _domain(n) if r is None else r


def x_tan(x, n):
    return term.stan(x, n)


def x_log(x, n):
    x = Sym.lift(x)
    if isinstance(x, float):
        return math.log(x) if x > 0 else REALFLOAT("nan")
    if decide(x, "<"):
        return _domain(n)
    if decide(x, "=="):
        if n:
            term.CTX.np_warning("divide by zero")
            return -math.inf
        raise ValueError("math domain error")
    if x.isconst and x.constval() == 1:
        return Sym.const(0)
    return term.uf("log", x, lambda v, M: M.log(v))


def x_atanh(x, n):
    x = Sym.lift(x)
    if isinstance(x, float):
        return REALFLOAT("nan")
    if decide(x - 1, ">=") or decide(x + 1, ">") is False:
        if n:
            term.CTX.np_warning("divide by zero")
            return math.inf if decide(x, ">") else -math.inf
        raise ValueError("math domain error")
    return term.uf("atanh", x, lambda v, M: M.atanh(v))


def x_exp(x, n):
    x = Sym.lift(x)
    if isinstance(x, float):
        return x if x > 0 or x != x else 0.0
    return term.uf("exp", x, lambda v, M: M.exp(v))


def x_uf(name):
    def f(x, n):
        x2 = Sym.lift(x)
        if isinstance(x2, float):
            return getattr(math, name)(x2)
        return term.uf(name, x2, lambda v, M, name=name: getattr(M, name)(v))
    return f


def x_sign(x, n):
    x = Sym.lift(x)
    if isinstance(x, float):
        return REALFLOAT(np.sign(x))
    if decide(x, ">"):
        return Sym.const(1)
    return Sym.const(0) if decide(x, "==") else Sym.const(-1)


EXACT1 = {
    "sin": lambda x, n: term.sincos(x)[0],
    "cos": lambda x, n: term.sincos(x)[1],
    "tan": x_tan, "sqrt": x_sqrt, "asin": x_asin, "acos": x_acos,
    "atan": lambda x, n: term.satan(x),
    "radians": lambda x, n: _lin(x, True),
    "degrees": lambda x, n: _lin(x, False),
    "cbrt": lambda x, n: term.scbrt(x),
    "log": x_log, "exp": x_exp, "atanh": x_atanh,
    "asinh": x_uf("asinh"), "sinh": x_uf("sinh"), "cosh": x_uf("cosh"), "tanh": x_uf("tanh"),
    "sign": x_sign,
    "fabs": lambda x, n: abs(Sym.lift(x)),
    "floor": lambda x, n: term.sfloor(x),
    "ceil": lambda x, n: -term.sfloor(-Sym.lift(x)),
    "trunc": lambda x, n: term.strunc(x),
    "square": lambda x, n: Sym.lift(x) * x,
    "negative": lambda x, n: -Sym.lift(x),
    "absolute": lambda x, n: abs(Sym.lift(x)),
}


def _lin(x, to_rad):
    x = Sym.lift(x)
    if isinstance(x, float):
        return x
    pi = term.CTX.pi()
    return x * pi / 180 if to_rad else x * 180 / pi


def x_hypot(n, *a):
    t = None
    for x in a:
        x = Sym.lift(x)
        if isinstance(x, float):
            return abs(x)
        t = x * x if t is None else t + x * x
    return term.ssqrt(t)


def x_fmod(n, x, m):
    x, m = Sym.lift(x), Sym.lift(m)
    if isinstance(x, float) or isinstance(m, float):
        return REALFLOAT("nan")
    if decide(x, ">="):
        return term.smod(x, m)
    return -term.smod(-x, m)


def x_copysign(n, x, y):
    x, y = Sym.lift(x), Sym.lift(y)
    a = abs(x) if not isinstance(x, float) else abs(x)
    if isinstance(y, float):
        return a if math.copysign(1, y) > 0 else -a
    return a if decide(y, ">=") else -a


def x_isclose(n, a, b, rtol, atol, np_rule):
    d = abs(Sym.lift(a) - b)
    if isinstance(d, float):
        return False
    if np_rule:
        lim = abs(Sym.lift(b)) * rtol + atol
        return decide(lim - d, ">=")
    m = abs(Sym.lift(a))
    mb = abs(Sym.lift(b))
    if decide(mb - m, ">"):
        m = mb
    lim = m * rtol
    if atol and decide(Sym.lift(atol) - lim, ">"):
        lim = Sym.lift(atol)
    return decide(lim - d, ">=")


def x_minimum(n, a, b):
    return a if decide(Sym.lift(b) - a, ">=") else b


def x_maximum(n, a, b):
    return a if decide(Sym.lift(a) - b, ">=") else b


EXACTN = {"hypot": x_hypot, "atan2": lambda n, y, x: term.satan2(y, x), "fmod": x_fmod, "copysign": x_copysign,
          "minimum": x_minimum, "maximum": x_maximum, "fmin": x_minimum, "fmax": x_maximum,
          "power": lambda n, x, y: term.spow(x, y), "float_power": lambda n, x, y: term.spow(x, y),
          "pow": lambda n, x, y: term.spow(x, y),
          "remainder": lambda n, x, y: term.smod(Sym.lift(x), y), "mod": lambda n, x, y: term.smod(Sym.lift(x), y),
          "multiply": lambda n, x, y: Sym.lift(x) * y, "add": lambda n, x, y: Sym.lift(x) + y,
          "subtract": lambda n, x, y: Sym.lift(x) - y, "divide": lambda n, x, y: (npy(Sym.lift(x)) if n else Sym.lift(x)) / y,
          "true_divide": lambda n, x, y: (npy(Sym.lift(x)) if n else Sym.lift(x)) / y}

NPNAME = {"arcsin": "asin", "arccos": "acos", "arctan": "atan", "arctan2": "atan2", "arcsinh": "asinh",
          "arctanh": "atanh", "deg2rad": "radians", "rad2deg": "degrees", "abs": "absolute"}


def _exactable(x):
    """lift a concrete argument of the exact backend only when the result would be irrational"""
    return BK.kind == "exact" and term.CTX is not None


def scalar_call(name, np_like, args):
    """one scalar application of a mathematical function"""
    if any(getattr(a, "is_tm", False) for a in args):
        from . import tm
        return tm.call(name, np_like, args)
    if any(isinstance(a, Sym) for a in args) or (_exactable(args) and not all(_easy(name, a) for a in args)):
        if name in EXACT1 and len(args) == 1:
            r = EXACT1[name](args[0], np_like)
        elif name in EXACTN:
            r = EXACTN[name](np_like, *args)
        else:
            raise Unsupported(f"function {name} of a symbolic value")
        if isinstance(r, Sym):
            return npy(r) if np_like else plain(r)
        return np.float64(r) if np_like and isinstance(r, float) else r
    return None


def _easy(name, a):
    if isinstance(a, (bool,)):
        return True
    try:
        f = REALFLOAT(a)
    except (TypeError, ValueError):
        return True
    if f != f or f in (math.inf, -math.inf):
        return True
    if f == 0:
        return True
    if name in ("floor", "ceil", "trunc", "sign", "fabs", "absolute", "minimum", "maximum", "copysign", "fmod"):
        return True
    return False


def needs_elementwise(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def make_np_ufunc(npname):
    name = NPNAME.get(npname, npname)
    real = getattr(np, npname)

    def f(*args, **kw):
        if kw:
            args, kw = _kw_out(args, kw)
        if not any(issym(a) or isinstance(a, (np.ndarray, list, tuple)) for a in args):
            r = scalar_call(name, True, args)
            return real(*args, **kw) if r is None else r
        if any(needs_elementwise(a) or issym(a) or _has_sym(a) for a in args):
            arrs = [asobj(a) if isinstance(a, (np.ndarray, list, tuple)) else scal(a) for a in args]
            bc = np.broadcast(*arrs)
            out = np.empty(bc.shape, dtype=object)
            it = [REALFLOAT] if False else None
            flat = out.reshape(-1) if out.shape else None
            if flat is None:
                xs = list(next(iter(bc)))
                r = scalar_call(name, True, xs)
                return real(*xs) if r is None else r
            for i, xs in enumerate(bc):
                xs = [_el(x) for x in xs]
                r = scalar_call(name, True, xs)
                if r is None:
                    r = real(*xs)
                flat[i] = r
            return out
        return real(*args, **kw)
    f.__name__ = npname
    return f


def _kw_out(args, kw):
    if set(kw) - {"out", "where", "dtype"}:
        return args, kw
    raise Unsupported(f"numpy keyword {sorted(kw)}")


def _el(x):
    return x


def scal(a):
    o = np.empty((), dtype=object)
    o[()] = a
    return o


def asobj(a):
    if isinstance(a, np.ndarray):
        return a.astype(object) if a.dtype != object else a
    if issym(a):
        return scal(a)
    out = np.array(a, dtype=object)
    return out


def _has_sym(a):
    if isinstance(a, (list, tuple)):
        return any(issym(x) or _has_sym(x) for x in a)
    return needs_elementwise(a)


def make_math_func(name):
    real = getattr(math, name)

    def f(*args):
        args = tuple(_demote(a) for a in args)
        if any(isinstance(a, np.ndarray) and a.dtype == object for a in args):
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        if name == "fsum" or name == "sumprod" or name == "dist":
            return real(*args)
        r = scalar_call(name, False, args)
        return real(*args) if r is None else r
    f.__name__ = name
    return f


def _demote(a):
    if isinstance(a, np.ndarray) and a.dtype == object and a.size == 1:
        return a.reshape(-1)[0]
    return a


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        for n in dir(math):
            if n.startswith("_"):
                continue
            v = getattr(math, n)
            setattr(self, n, make_math_func(n) if callable(v) else v)
        self.isnan = lambda x: False if issym(x) else math.isnan(x)
        self.isfinite = lambda x: True if issym(x) else math.isfinite(x)
        self.isinf = lambda x: False if issym(x) else math.isinf(x)
        self.isclose = self._isclose

    @staticmethod
    def _isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if issym(a) or issym(b):
            if getattr(a, "is_tm", False) or getattr(b, "is_tm", False):
                from . import tm
                return tm.isclose(a, b, rel_tol, abs_tol, False)
            return x_isclose(False, a, b, rel_tol, abs_tol, False)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def __getattribute__(self, n):
        if n in ("pi", "tau") and BK.kind == "exact" and term.CTX is not None:
            p = term.CTX.pi()
            return p if n == "pi" else 2 * p
        return super().__getattribute__(n)


class NumpyShim(types.ModuleType):
    UFUNCS = ["sin", "cos", "tan", "arcsin", "arccos", "arctan", "arctan2", "arcsinh", "arctanh", "sinh", "cosh", "tanh",
              "sqrt", "cbrt", "exp", "log", "hypot", "fmod", "copysign", "power", "float_power", "radians", "degrees", "deg2rad",
              "rad2deg", "sign", "minimum", "maximum", "fmin", "fmax", "absolute", "abs", "fabs", "floor", "ceil",
              "trunc", "remainder", "mod", "square", "multiply", "add", "subtract", "divide", "true_divide", "negative"]

    def __init__(self):
        super().__init__("numpy")
        for n in self.UFUNCS:
            setattr(self, n, make_np_ufunc(n))
        self.__path__ = []
        self.typing = np.typing if hasattr(np, "typing") else None

    def __getattr__(self, n):
        return getattr(np, n)

    # ---- predicates -------------------------------------------------------
    @staticmethod
    def isnan(a):
        return _pred(a, lambda x: x != x if isinstance(x, float) else False, np.isnan)

    @staticmethod
    def isfinite(a):
        return _pred(a, lambda x: bool(np.isfinite(x)) if isinstance(x, float) else True, np.isfinite)

    @staticmethod
    def isinf(a):
        return _pred(a, lambda x: bool(np.isinf(x)) if isinstance(x, float) else False, np.isinf)

    @staticmethod
    def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not (issym(a) or issym(b) or _has_sym(a) or _has_sym(b)):
            return np.isclose(a, b, rtol, atol, equal_nan)

        def one(x, y):
            if BK.kind == "num":
                from . import tm
                return tm.isclose(x, y, rtol, atol, True)
            return x_isclose(True, x, y, rtol, atol, True)
        A = asobj(a) if isinstance(a, (np.ndarray, list, tuple)) else scal(a)
        B = asobj(b) if isinstance(b, (np.ndarray, list, tuple)) else scal(b)
        bc = np.broadcast(A, B)
        out = np.empty(bc.shape, dtype=bool)
        if not bc.shape:
            x, y = next(iter(bc))
            return np.bool_(one(x, y))
        fl = out.reshape(-1)
        for i, (x, y) in enumerate(bc):
            fl[i] = one(x, y)
        return out

    # ---- construction ------------------------------------------------------
    @staticmethod
    def empty(shape, dtype=None, *a, **k):
        return np.empty(shape, dtype=object if dtype in (None, REALFLOAT, np.float64) or _isfl(dtype) else dtype)

    @staticmethod
    def zeros(shape, dtype=None, *a, **k):
        r = NumpyShim.empty(shape, dtype)
        r[...] = 0.0 if r.dtype == object else 0
        return r

    @staticmethod
    def ones(shape, dtype=None, *a, **k):
        r = NumpyShim.empty(shape, dtype)
        r[...] = 1.0 if r.dtype == object else 1
        return r

    @staticmethod
    def full(shape, v, dtype=None, *a, **k):
        r = NumpyShim.empty(shape, dtype)
        r[...] = v
        return r

    @staticmethod
    def empty_like(a, dtype=None, *x, **k):
        if issym(a):
            return np.empty((), dtype=object)
        a = np.asarray(a)
        return np.empty(a.shape, dtype=object if a.dtype.kind in "fO" else a.dtype)

    @staticmethod
    def zeros_like(a, dtype=None, *x, **k):
        r = NumpyShim.empty_like(a)
        r[...] = 0.0
        return r

    @staticmethod
    def ones_like(a, dtype=None, *x, **k):
        r = NumpyShim.empty_like(a)
        r[...] = 1.0
        return r

    @staticmethod
    def full_like(a, v, dtype=None, *x, **k):
        r = NumpyShim.empty_like(a)
        r[...] = v
        return r

    @staticmethod
    def asarray(a, dtype=None, *x, **k):
        if issym(a):
            return scal(a)
        if isinstance(a, np.ndarray):
            return a
        if _has_sym(a):
            return np.array(a, dtype=object)
        return np.asarray(a, dtype if not _isfl(dtype) else REALFLOAT)

    asanyarray = asarray

    @staticmethod
    def array(a, dtype=None, *x, copy=True, **k):
        r = NumpyShim.asarray(a, dtype)
        return r.copy()

    @staticmethod
    def atleast_1d(*arrs):
        out = [NumpyShim.asarray(a) for a in arrs]
        out = [o.reshape(1) if o.ndim == 0 else o for o in out]
        return out[0] if len(out) == 1 else tuple(out)

    @staticmethod
    def broadcast_arrays(*a, **k):
        return tuple(np.broadcast_arrays(*[NumpyShim.asarray(x) for x in a]))

    @staticmethod
    def where(c, *ab):
        if not ab:
            return np.where(c)
        a, b = ab
        c = np.asarray(c)
        if not any(issym(x) or _has_sym(x) for x in ab):
            return np.where(c, a, b)
        A = asobj(a) if isinstance(a, (np.ndarray, list, tuple)) else scal(a)
        B = asobj(b) if isinstance(b, (np.ndarray, list, tuple)) else scal(b)
        bc = np.broadcast(c, A, B)
        out = np.empty(bc.shape, dtype=object)
        if not bc.shape:
            k, x, y = next(iter(bc))
            out[()] = x if k else y
            return out
        fl = out.reshape(-1)
        for i, (k, x, y) in enumerate(bc):
            fl[i] = x if k else y
        return out

    @staticmethod
    def linspace(start, stop, num=50, **k):
        if not (issym(start) or issym(stop)):
            return np.linspace(start, stop, num, **k)
        out = np.empty((num,), dtype=object)
        from fractions import Fraction as Fr
        for i in range(num):
            w = Fr(i, num - 1) if BK.kind == "exact" else i / (num - 1)
            out[i] = npy(start + (stop - start) * w)
        out[num - 1] = npy(stop) if issym(stop) else stop
        return out

    @staticmethod
    def finfo(dt):
        try:
            if np.dtype(dt) == object:
                dt = np.float64
        except TypeError:
            dt = np.float64
        return np.finfo(dt)

    def __getattribute__(self, n):
        if n == "pi" and BK.kind == "exact" and term.CTX is not None:
            return term.CTX.pi()
        return super().__getattribute__(n)


def _isfl(dt):
    try:
        return dt is not None and np.dtype(dt).kind == "f"
    except TypeError:
        return False


def _pred(a, f, real):
    if issym(a):
        return np.bool_(False if real is not np.isfinite else True)
    if needs_elementwise(a):
        out = np.empty(a.shape, dtype=bool)
        if not a.shape:
            return np.bool_(f(a[()]))
        fl = out.reshape(-1)
        for i, x in enumerate(a.reshape(-1)):
            fl[i] = f(x)
        return out
    return real(a)


class SysShim(types.ModuleType):
    def __init__(self, with_numpy):
        super().__init__("sys")
        import sys
        self.modules = {k: v for k, v in list(sys.modules.items())
                        if k.split(".")[0] not in ("numpy", "astropy", "scipy", "pymap3d")}
        if with_numpy:
            self.modules["numpy"] = np

    def __getattr__(self, n):
        import sys
        return getattr(sys, n)


class WarningsShim(types.ModuleType):
    def __init__(self):
        super().__init__("warnings")

    def __getattr__(self, n):
        return getattr(warnings, n)

    class catch_warnings:
        def __init__(self, **k):
            pass

        def __enter__(self):
            WSTACK.append(False)
            return []

        def __exit__(self, *a):
            WSTACK.pop()

    @staticmethod
    def simplefilter(action, *a, **k):
        if WSTACK:
            WSTACK[-1] = action == "error"

    filterwarnings = simplefilter

    @staticmethod
    def warn(*a, **k):
        pass


WSTACK = []


def warning(msg):
    """numpy emits a RuntimeWarning"""
    if WSTACK and WSTACK[-1]:
        raise RuntimeWarning(msg)


class LoggingShim(types.ModuleType):
    def __init__(self):
        super().__init__("logging")

    def __getattr__(self, n):
        if n in ("warning", "info", "debug", "error", "critical"):
            return lambda *a, **k: None
        return getattr(logging, n)


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, REALFLOAT) or issym(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, REALFLOAT)

    def __call__(cls, x=0.0):
        if issym(x):
            return plain(x) if isinstance(x, Sym) else x
        if isinstance(x, np.ndarray) and x.dtype == object:
            if x.size != 1:
                raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
            return cls(x.reshape(-1)[0])
        h = getattr(x, "__symfloat__", None)
        if h is not None:
            return h()
        return REALFLOAT(x)

    def __eq__(cls, o):
        return o is cls or o is REALFLOAT

    def __hash__(cls):
        return hash(REALFLOAT)

    def __getattr__(cls, n):
        return getattr(REALFLOAT, n)


class FloatShim(REALFLOAT, metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, REALINT)

    def __subclasscheck__(cls, c):
        return issubclass(c, REALINT)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            return term.strunc(x)
        h = getattr(x, "__symint__", None)
        if h is not None:
            return h()
        return REALINT(x, *a)

    def __eq__(cls, o):
        return o is cls or o is REALINT

    def __hash__(cls):
        return hash(REALINT)

    def __getattr__(cls, n):
        return getattr(REALINT, n)


class IntShim(REALINT, metaclass=_IntMeta):
    pass

"""Taylor models: the enclosure domain in which iterative and series algorithms are executed.

A value over a batch of boxes is a polynomial in the box coordinates (each in [-1, 1]) plus a symmetric remainder: an array of
coefficients (monomials x boxes) and a radius per box.  Every operation is enclosed, including the rounding of the coefficients.
"""
from __future__ import annotations
import ctypes
import itertools
import math
import os
import subprocess
import tempfile

import numpy as np

from . import shims

U = 1.2e-16          # rounding of one double operation
UP = 1 + 1e-13
NOISE = 1e-11        # comparisons of values that agree to within this are resolved downward
CUR = None           # the running batch

C_SRC = r"""
#include <string.h>
#include <math.h>
/* sums of |coefficients| by degree: D[N+2][B]; the last row is that of the linear variables.  row i of c has degree deg[i] (N+1: linear) */
void tm_bydeg(long M, long B, long N, const int *deg, const double *c, double *D, unsigned char *zero) {
    memset(D, 0, sizeof(double) * (N + 2) * B);
    for (long i = 0; i < M; i++) {
        const double *x = c + i * B;
        double *o = D + (long)deg[i] * B;
        int any = 0;
        for (long t = 0; t < B; t++) any |= x[t] != 0;
        zero[i] = !any;
        if (any) for (long t = 0; t < B; t++) o[t] += fabs(x[t]);
    }
}
/* product truncated to degree L, with a bound of everything left out and of the rounding */
void tm_mul(long M, long B, long N, long L, long nlin, long n, const int *pi, const int *pj, const int *pk, const double *a, const double *b,
            double *out, const unsigned char *za, const unsigned char *zb, const double *A, const double *Bd, const double *ra, const double *rb,
            const double *cnt, double *r, double U, double UP) {
    memset(out, 0, sizeof(double) * M * B);
    for (long t0 = 0; t0 < B; t0 += 64) {
        long w = B - t0 < 64 ? B - t0 : 64;
        for (long p = 0; p < n; p++) {
            int i = pi[p], j = pj[p];
            if (za[i] || zb[j]) continue;
            const double *restrict x = a + (long)i * B + t0, *restrict y = b + (long)j * B + t0;
            double *restrict o = out + (long)pk[p] * B + t0;
            if (w == 64) for (long t = 0; t < 64; t++) o[t] += x[t] * y[t];
            else for (long t = 0; t < w; t++) o[t] += x[t] * y[t];
        }
    }
    for (long t = 0; t < B; t++) {
        double over = 0, rnd = 0, sa = 0, sb = 0, fa = 0, fb = 0;
        double cum[64];
        cum[N + 1] = 0;
        for (long d = N; d >= 0; d--) cum[d] = cum[d + 1] + Bd[d * B + t];
        for (long d = 0; d <= N; d++) {
            double v = A[d * B + t];
            sa += v; sb += Bd[d * B + t];
            if (d) { fa += v; fb += Bd[d * B + t]; }
            if (v == 0) continue;
            if (d > L) over += v * cum[0]; else over += v * cum[L - d + 1];
            for (long e = 0; e + d <= L; e++) rnd += (cnt[d + e] + 1) * v * Bd[e * B + t];
        }
        if (nlin) {
            double La = A[(N + 1) * B + t], Lb = Bd[(N + 1) * B + t];
            over += La * (fb + Lb) + fa * Lb;
            rnd += 3 * (La * Bd[t] + A[t] * Lb);
            if (L < 1) over += La * Bd[t] + A[t] * Lb;
            sa += La; sb += Lb;
        }
        r[t] = (over + ra[t] * sb + rb[t] * sa + ra[t] * rb[t] + U * rnd) * UP;
    }
}
"""
_LIB = None
_L, _P, _D = ctypes.c_long, ctypes.c_void_p, ctypes.c_double


def lib():
    global _LIB
    if _LIB is None:
        d = tempfile.mkdtemp(prefix="vsym")
        src, so = os.path.join(d, "k.c"), os.path.join(d, "k.so")
        try:
            with open(src, "w") as f:
                f.write(C_SRC)
            subprocess.run(["gcc", "-O3", "-march=native", "-mprefer-vector-width=512", "-shared", "-fPIC", "-o", so, src], check=True, capture_output=True)
            _LIB = ctypes.CDLL(so)
        finally:
            for p in (src, so):
                if os.path.exists(p):
                    os.remove(p)
            os.rmdir(d)
    return _LIB


class Mono:
    """monomials of total degree <= N in the full variables, plus one linear monomial for each linear variable"""

    def __init__(self, nfull, nlin, N):
        self.N = N
        ex = [e for e in itertools.product(range(N + 1), repeat=nfull) if sum(e) <= N]
        ex.sort(key=lambda e: (sum(e), e))
        self.M = len(ex) + nlin
        idx = {e: i for i, e in enumerate(ex)}
        self.lin = [idx[tuple(1 if v == w else 0 for w in range(nfull))] for v in range(nfull)] if N >= 1 else []
        self.lin += [len(ex) + i for i in range(nlin)]
        self.deg = np.array([sum(e) for e in ex] + [1] * nlin)
        pi, pj, pk = [], [], []
        for i, a in enumerate(ex):
            for j, b in enumerate(ex):
                if self.deg[i] + self.deg[j] <= N:
                    pi.append(i)
                    pj.append(j)
                    pk.append(idx[tuple(x + y for x, y in zip(a, b))])
        for t in range(nlin):
            k = len(ex) + t
            pi += [0, k]
            pj += [k, 0]
            pk += [k, k]
        self.nlin = nlin
        self.nex = len(ex)
        self.row = np.array([sum(e) for e in ex] + [N + 1] * nlin, dtype=np.int32)
        od = [0 if k >= len(ex) else self.deg[k] for k in pk]          # pairs by the degree of their product
        order = sorted(range(len(pk)), key=lambda t: (od[t], pk[t]))
        pi, pj, pk = [[x[t] for t in order] for x in (pi, pj, pk)]
        self.np_ = [sum(d <= L for d in od) for L in range(N + 1)]
        self.p = [np.ascontiguousarray(x, dtype=np.int32) for x in (pi, pj, pk)]
        self.pp = [_P(x.ctypes.data) for x in self.p]
        self.rowp = _P(self.row.ctypes.data)
        cnt = np.zeros(self.M)
        np.add.at(cnt, self.p[2], 1)
        self.cnt = np.array([max([cnt[i] for i in range(len(ex)) if self.deg[i] == d] or [1]) for d in range(N + 1)] + [2.0])

    def degs(self, c):
        """sums of |coefficients| by degree (the linear variables form the last row), and which rows are zero"""
        D = np.empty((self.N + 2, c.shape[1]))
        z = np.empty(self.M, dtype=np.uint8)
        lib().tm_bydeg(_L(self.M), _L(c.shape[1]), _L(self.N), self.rowp, _P(c.ctypes.data), _P(D.ctypes.data), _P(z.ctypes.data))
        return D, z

    def bydeg(self, c):
        return self.degs(np.ascontiguousarray(c))[0]


_MONO = {}


def mono(nfull, nlin, N):
    k = (nfull, nlin, N)
    if k not in _MONO:
        _MONO[k] = Mono(*k)
    return _MONO[k]


class Abort(BaseException):
    """no box is left in this run"""


def isnum(x):
    return isinstance(x, (int, float, np.floating, np.integer)) and not isinstance(x, bool) or isinstance(x, (bool, np.bool_))


def _frac(x):
    from fractions import Fraction
    return float(x) if isinstance(x, Fraction) else x


class TM:
    __slots__ = ("c", "r", "np_like", "memo", "_s")
    is_tm = True
    __array_priority__ = -1

    def __init__(self, c, r, np_like=False):
        self.c, self.r, self.np_like, self.memo, self._s = c, r, np_like, {}, None

    # ---- construction
    @staticmethod
    def const(v, np_like=False):
        c = np.zeros((CUR.ms.M, CUR.B))
        c[0] = v
        return TM(c, np.zeros(CUR.B), np_like)

    @staticmethod
    def interval(lo, hi, np_like=False):
        c = np.zeros((CUR.ms.M, CUR.B))
        m = 0.5 * (lo + hi)
        c[0] = m
        return TM(c, np.maximum(hi - m, m - lo) * UP + np.abs(m) * U, np_like)

    def like(self, *o):
        return self.np_like or any(getattr(x, "np_like", False) or isinstance(x, np.generic) for x in o)

    # ---- ranges
    def dev(self):
        """radius around the constant term"""
        if self._s is None:
            self._s = (np.abs(self.c[1:]).sum(axis=0) * UP + self.r) * UP
        return self._s

    def hull(self):
        s = self.dev()
        e = np.abs(self.c[0]) * 1e-15
        return self.c[0] - s - e, self.c[0] + s + e

    def mag(self):
        return (np.abs(self.c[0]) + self.dev()) * UP

    # ---- arithmetic
    def __neg__(self):
        return TM(-self.c, self.r, self.np_like)

    def __pos__(self):
        return self

    def __add__(self, o):
        if isinstance(o, TM):
            if CUR.ms is None:
                raise RuntimeError
            c = self.c + o.c
            return TM(c, (self.r + o.r + U * np.abs(c).sum(axis=0)) * UP, self.like(o))
        o = _frac(o)
        if isnum(o):
            if not math.isfinite(o):
                return float(o)
            c = self.c.copy()
            c[0] += o
            return TM(c, self.r + U * np.abs(c[0]), self.like(o))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if o is self:
            return TM.const(0.0, self.np_like)
        if isinstance(o, TM):
            return self + (-o)
        if isnum(_frac(o)):
            return self + (-_frac(o))
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, TM):
            return mul(self, o)
        o = _frac(o)
        if isnum(o):
            if not math.isfinite(o):
                return float("nan") if o != o else (o if not decide(self, "<") else -o)
            c = self.c * o
            return TM(c, (self.r * abs(o) + U * np.abs(c).sum(axis=0)) * UP, self.like(o))
        return NotImplemented

    __rmul__ = __mul__

    def scale(self, v):
        """times a number per box"""
        c = self.c * v
        return TM(c, (self.r * np.abs(v) + U * np.abs(c).sum(axis=0)) * UP, self.np_like)

    def shift(self, v):
        c = self.c.copy()
        c[0] = c[0] + v
        return TM(c, (self.r + U * np.abs(c[0])) * UP, self.np_like)

    def __truediv__(self, o):
        if isinstance(o, TM):
            r = mul(self, inv(o))
            r.np_like = self.like(o)
            return r
        o = _frac(o)
        if isnum(o):
            if o == 0:
                if self.like(o):
                    shims.warning("divide by zero")
                    return math.inf if not decide(self, "<") else -math.inf
                raise ZeroDivisionError("division by zero")
            if math.isinf(o):
                return 0.0
            return self * (1.0 / float(o)) if math.isfinite(1.0 / float(o)) else NotImplemented
        return NotImplemented

    def __rtruediv__(self, o):
        if isnum(_frac(o)):
            return inv(self) * _frac(o)
        return NotImplemented

    def __pow__(self, p, mod=None):
        return power(self, p)

    def __rpow__(self, b):
        return call("exp", self.np_like, (self * math.log(b),))

    def __abs__(self):
        if "abs" not in self.memo:
            self.memo["abs"] = -self if decide(self, "<") else self
        return self.memo["abs"]

    def __mod__(self, m):
        if isinstance(m, TM):
            q = floor_int(self / m)
            return self - m * q
        q = floor_int(self * (1.0 / float(m)))
        return self - float(m) * q if q else self

    def __floordiv__(self, m):
        return TM.const(float(floor_int(self / m)), self.like(m))

    def __rmod__(self, o):
        return TM.const(o, self.np_like) % self

    def __divmod__(self, m):
        q = floor_int(self / m)
        return TM.const(float(q)), self - m * q

    def __round__(self, n=None):
        if n is not None:
            raise shims.Unsupported("round to digits")
        return floor_int(self + 0.5)

    def __floor__(self):
        return floor_int(self)

    def __ceil__(self):
        return -floor_int(-self)

    def __trunc__(self):
        return -floor_int(-self) if decide(self, "<") else floor_int(self)

    def __symint__(self):
        return self.__trunc__()

    def __symfloat__(self):
        return TM(self.c, self.r, False)

    # ---- comparisons
    def _cmp(self, o, op):
        o = _frac(o)
        if isnum(o):
            if o != o:
                v = op == "!="
                return np.bool_(v) if self.like(o) else v
            if math.isinf(o):
                v = {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op]
                return np.bool_(v) if self.like(o) else v
        elif not isinstance(o, TM):
            return NotImplemented
        v = decide(self - o, op)
        return np.bool_(v) if self.like(o) else v

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    __hash__ = None

    def __bool__(self):
        return not decide(self, "==")

    # ---- the numpy scalar interface
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def shape(self):
        self._np("shape")
        return ()

    @property
    def ndim(self):
        self._np("ndim")
        return 0

    @property
    def size(self):
        self._np("size")
        return 1

    @property
    def dtype(self):
        self._np("dtype")
        return np.dtype(float)

    def _np(self, n):
        if not self.np_like:
            raise AttributeError(f"'float' object has no attribute '{n}'")

    def _method(self, n):
        self._np(n)
        return {"any": lambda *a, **k: np.bool_(not decide(self, "==")), "all": lambda *a, **k: np.bool_(not decide(self, "==")),
                "squeeze": lambda *a, **k: self, "copy": lambda: self, "item": lambda: TM(self.c, self.r, False),
                "sum": lambda *a, **k: self, "ravel": self._arr, "flatten": self._arr, "astype": lambda t: self,
                "reshape": lambda *s: self._arr().reshape(*s), "conj": lambda: self, "max": lambda: self, "min": lambda: self}[n]

    def __getattr__(self, n):
        if n in ("any", "all", "squeeze", "copy", "item", "sum", "ravel", "flatten", "astype", "reshape", "max", "min"):
            return self._method(n)
        raise AttributeError(f"'float' object has no attribute '{n}'")

    def _arr(self):
        r = np.empty((1,), dtype=object)
        r[0] = self
        return r

    def __getitem__(self, k):
        if not self.np_like:
            raise TypeError("'float' object is not subscriptable")
        if isinstance(k, tuple) and k == ():
            return self
        a = np.empty((), dtype=object)
        a[()] = self
        return a[k]

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __float__(self):
        raise shims.Unsupported("float() of an enclosure")

    def __repr__(self):
        return f"TM({self.c[0][:2]} +- {self.dev()[:2]})"


def lift(x):
    return x if isinstance(x, TM) else TM.const(float(_frac(x)), isinstance(x, np.generic))


def mul(x, y, L=None, dy=None):
    ms = CUR.ms
    L = ms.N if L is None else L
    a, b = np.ascontiguousarray(x.c), np.ascontiguousarray(y.c)
    out = np.empty_like(a)
    A, za = ms.degs(a)
    B, zb = dy or ((A, za) if b is a else ms.degs(b))
    ra, rb = np.ascontiguousarray(x.r), np.ascontiguousarray(y.r)
    r = np.empty(a.shape[1])
    lib().tm_mul(_L(ms.M), _L(a.shape[1]), _L(ms.N), _L(L), _L(ms.nlin), _L(ms.np_[L]), *ms.pp,
                 _P(a.ctypes.data), _P(b.ctypes.data), _P(out.ctypes.data), _P(za.ctypes.data), _P(zb.ctypes.data), _P(A.ctypes.data),
                 _P(B.ctypes.data), _P(ra.ctypes.data), _P(rb.ctypes.data), _P(ms.cnt.ctypes.data), _P(r.ctypes.data), _D(U), _D(UP))
    return TM(out, r, x.np_like or y.np_like)


def compose(T, coef, rem, ok=None, lo=None, hi=None):
    """sum coef[k] (T - c0)^k, the remainder rem added; boxes with ok False get the interval [lo, hi]"""
    d = TM(T.c.copy(), T.r, T.np_like)
    d.c[0] = 0.0
    bad = None if ok is None else ~ok
    if bad is not None and bad.any():
        d.c[:, bad] = 0.0
        d.r = np.where(bad, 0.0, d.r)
        rem = np.where(bad, 0.0, rem)
        coef = [np.where(bad, 0.0, c) for c in coef]
    res = TM.const(coef[-1], T.np_like)
    d.c = np.ascontiguousarray(d.c)
    dd = CUR.ms.degs(d.c)
    for k in range(len(coef) - 2, -1, -1):
        res = mul(res, d, CUR.ms.N - k, dd)      # later factors d have no constant term: higher degrees would be cut anyway
        res.c[0] = res.c[0] + coef[k]
        res.r = res.r + U * np.abs(res.c[0])
        res._s = None
    res.r = (res.r + rem + 4 * U * np.abs(coef[0])) * UP
    if bad is not None and bad.any():
        m = 0.5 * (lo + hi)
        res.c[:, bad] = 0.0
        res.c[0] = np.where(bad, m, res.c[0])
        res.r = np.where(bad, np.maximum(hi - m, m - lo) * UP + np.abs(m) * 1e-15, res.r)
    res.np_like = T.np_like
    res._s = None
    return res


def inv(T):
    if "inv" in T.memo:
        return T.memo["inv"]
    N = CUR.ms.N
    c0, s = T.c[0], T.dev()
    lo, hi = T.hull()
    zero = (lo <= 0) & (hi >= 0)
    wide = zero & (np.maximum(-lo, hi) > 1e-9)
    if wide.any():
        CUR.need_split(wide & CUR.alive)      # undefined somewhere in the box: smaller boxes; within the noise of 0: any value
    with np.errstate(all="ignore"):
        q = s / np.abs(c0)
        ok = q < 0.8
        coef = []
        t = 1.0 / c0
        for k in range(N + 1):
            coef.append(t)
            t = -t / c0
        rem = q ** (N + 1) / (np.abs(c0) - s)
        a, b = 1.0 / lo, 1.0 / hi
        coef = [np.where(zero, 0.0, c) for c in coef]
        rem = np.where(zero, np.inf, rem)
        r = compose(T, coef, np.where(ok, rem, 0.0), ok | zero, np.minimum(a, b), np.maximum(a, b))
    r.r = np.where(zero, np.inf, r.r)
    T.memo["inv"] = r
    return r


def powf(T, p):
    """T**p for T > 0"""
    N = CUR.ms.N
    c0, s = T.c[0], T.dev()
    lo, hi = T.hull()
    zero = lo <= 0
    if zero.any() and p < 0:
        CUR.need_split(zero & CUR.alive)
    with np.errstate(all="ignore"):
        q = s / c0
        ok = (q < 0.7) & (c0 > 0) & ~zero
        coef = []
        t = np.where(c0 > 0, c0, 1.0) ** p
        k = 0
        bn = 1.0
        for k in range(N + 1):
            coef.append(bn * t)
            bn *= (p - k) / (k + 1)
            t = t / np.where(c0 > 0, c0, 1.0)
        m = np.where(ok, c0 - s, 1.0)
        M = np.where(ok, c0 + s, 1.0)
        rem = abs(bn) * s ** (N + 1) * np.maximum(m ** (p - N - 1), M ** (p - N - 1))
        l, h = np.maximum(lo, 0.0) ** p, np.maximum(hi, 0.0) ** p
        l, h = np.minimum(l, h) * (1 - 1e-15), np.maximum(l, h) * (1 + 1e-15)
        return compose(T, coef, np.where(ok, rem, 0.0), ok, l, h)


def power(T, p):
    p = _frac(p)
    if isinstance(p, TM):
        return call("exp", T.like(p), (p * call("log", T.np_like, (T,)),))
    if isinstance(p, (int, np.integer)) or float(p).is_integer():
        n = int(p)
        if n < 0:
            return inv(power(T, -n))
        if n == 0:
            return TM.const(1.0, T.np_like)
        r = None
        b = T
        while n:
            if n & 1:
                r = b if r is None else mul(r, b)
            n >>= 1
            if n:
                b = mul(b, b)
        r.np_like = T.like(p)
        return r
    if decide(T, "<"):
        if T.np_like:
            shims.warning("invalid value encountered in power")
            return float("nan")
        raise shims.Unsupported("negative base")
    return powf(T, float(p))


def _sc(T, which):
    """sine (0) or cosine (1)"""
    nm = ("sin", "cos")[which]
    if nm in T.memo:
        return T.memo[nm]
    N = CUR.ms.N
    c0, s = T.c[0], T.dev()
    sn, cn = np.sin(c0), np.cos(c0)
    cyc = [sn, cn, -sn, -cn]
    f = 1.0
    cs = []
    for k in range(N + 1):
        cs.append(cyc[(k + which) % 4] / f)
        f *= k + 1
    with np.errstate(all="ignore"):
        rem = np.where(s < 1e3, s ** (N + 1) / f, 0.0)
    ok = s < 1.5
    t = np.where(ok, s, 1.0)
    rs = 3e-16 * sum(np.abs(x) * t ** k for k, x in enumerate(cs))
    T.memo[nm] = compose(T, cs, rem + rs, ok, -np.ones_like(c0), np.ones_like(c0))
    return T.memo[nm]


def sincos(T):
    return _sc(T, 0), _sc(T, 1)


def atan(T):
    N = CUR.ms.N
    c0, s = T.c[0], T.dev()
    th = np.arctan(c0)
    ct = np.cos(th)
    coef = [th]
    t = ct.copy()
    for k in range(1, N + 1):
        coef.append(t * np.sin(k * (th + math.pi / 2)) / k)
        t = t * ct
    lo, hi = T.hull()
    with np.errstate(all="ignore"):
        m = np.where((lo <= 0) & (hi >= 0), 0.0, np.minimum(np.abs(lo), np.abs(hi)))
        rem = s ** (N + 1) / (N + 1) * (1 + m * m) ** (-(N + 1) / 2)
        ok = (s * ct < 0.8) & np.isfinite(rem)
        rem = np.where(ok, rem, 0.0)
        q = np.where(ok, s * ct, 0.0)
    return compose(T, coef, rem + 3e-16 * np.abs(th) + 2e-15 * q / (1 - q), ok, np.arctan(lo) - 1e-15, np.arctan(hi) + 1e-15)


def exp(T):
    N = CUR.ms.N
    c0, s = T.c[0], T.dev()
    with np.errstate(all="ignore"):
        e = np.exp(np.minimum(c0, 600.0))
        coef, f = [], 1.0
        for k in range(N + 1):
            coef.append(e / f)
            f *= k + 1
        rem = np.exp(np.minimum(c0 + s, 600.0)) * s ** (N + 1) / f
        ok = s < 2
        lo, hi = T.hull()
        return compose(T, coef, np.where(ok, rem, 0.0) + 1e-15 * e, ok, np.exp(np.minimum(lo, 600)) * (1 - 1e-15), np.exp(np.minimum(hi, 600)) * (1 + 1e-15))


def log(T):
    N = CUR.ms.N
    c0, s = T.c[0], T.dev()
    lo, hi = T.hull()
    bad = lo <= 0
    if bad.any():
        CUR.need_split(bad & CUR.alive)
    with np.errstate(all="ignore"):
        q = s / c0
        ok = q < 0.8
        cc = np.where(c0 > 0, c0, 1.0)
        coef = [np.log(cc)]
        t = 1.0 / cc
        for k in range(1, N + 1):
            coef.append(t / k)
            t = -t / cc
        rem = (s / np.where(c0 > s, c0 - s, 1.0)) ** (N + 1) / (N + 1)
        l, h = np.log(np.where(lo > 0, lo, 1e-300)), np.log(np.where(hi > 0, hi, 1e-300))
        r = compose(T, coef, np.where(ok, rem, 0.0) + 1e-15 * np.abs(coef[0]), ok & ~bad, l - 1e-15 * np.abs(l), h + 1e-15 * np.abs(h))
    r.r = np.where(bad, np.inf, r.r)
    return r


def atan2(y, x):
    """the angle of (x, y); rotated to the angle of the centre of the box"""
    y, x = lift(y), lift(x)
    y0, x0 = y.c[0], x.c[0]
    th = np.arctan2(y0, x0)
    cs, sn = np.cos(th), np.sin(th)
    X = x.scale(cs) + y.scale(sn)
    Y = y.scale(cs) - x.scale(sn)
    bad = X.hull()[0] <= 0
    if bad.any():
        CUR.need_split(bad & CUR.alive)
        X = TM(X.c.copy(), X.r.copy(), X.np_like)
        X.c[:, bad] = 0.0
        X.c[0, bad] = 1.0
        X.r = np.where(bad, 0.0, X.r)
        X._s = None
    A = atan(Y / X).shift(th)
    A.r = np.where(bad, np.inf, A.r + 3e-16)
    A._s = None
    # the branch cut: where the box meets y = 0, x < 0
    lo, hi = A.hull()
    cut = ((hi > math.pi + 1e-12) | (lo < -math.pi - 1e-12)) & ~bad
    # +1 turn (0, 1) or -1 turn (0, -1) over part of the box (always asked: decisions are numbered)
    up = np.where(cut & (lo < -math.pi), 1, 0)
    dn = np.where(cut & (hi > math.pi), -1, 0)
    k = CUR.choose(dn, up)
    if k:
        A = A + 2 * math.pi * k
    A.np_like = y.np_like or x.np_like
    return A


def hypot(*a):
    a = [lift(t) for t in a]
    if len(a) == 1:
        return abs(a[0])
    if len(a) > 2:
        return hypot(hypot(*a[:-1]), a[-1])
    x, y = a
    th = np.arctan2(y.c[0], x.c[0])
    cs, sn = np.cos(th), np.sin(th)
    X = x.scale(cs) + y.scale(sn)
    Y = y.scale(cs) - x.scale(sn)
    lo = X.hull()[0]
    bad = lo <= 0.05 * np.abs(X.c[0])
    with np.errstate(all="ignore"):
        lx, hx = x.hull()
        ly, hy = y.hull()
        mx = np.where((lx <= 0) & (hx >= 0), 0.0, np.minimum(np.abs(lx), np.abs(hx)))
        my = np.where((ly <= 0) & (hy >= 0), 0.0, np.minimum(np.abs(ly), np.abs(hy)))
        low, high = np.hypot(mx, my) * (1 - 1e-15), np.hypot(x.mag(), y.mag()) * (1 + 1e-15)
    if bad.any():
        X = TM(X.c.copy(), X.r.copy(), X.np_like)
        X.c[:, bad] = 0.0
        X.c[0, bad] = 1.0
        X.r = np.where(bad, 0.0, X.r)
        X._s = None
    q = Y / X
    if (bad & CUR.alive).any():
        q.c[:, bad] = 0.0
        q.r = np.where(bad, 0.0, q.r)
        q._s = None
    R = mul(X, powf(mul(q, q) + 1.0, 0.5))
    if bad.any():
        m = 0.5 * (low + high)
        R.c[:, bad] = 0.0
        R.c[0] = np.where(bad, m, R.c[0])
        R.r = np.where(bad, (high - m) * UP, R.r)
        R._s = None
    R.np_like = x.np_like or y.np_like
    return R


def asin(T, np_like):
    if decide(T - 1.0, ">") or decide(T + 1.0, "<"):
        if np_like:
            shims.warning("invalid value encountered in arcsin")
            return float("nan")
        raise ValueError("math domain error")
    lo, hi = T.hull()
    near = (hi >= 1 - 1e-12) | (lo <= -1 + 1e-12)
    S = TM(T.c.copy(), T.r.copy(), T.np_like)
    if near.any():
        S.c[:, near] = 0.0
        S.r = np.where(near, 0.0, S.r)
        S._s = None
    q = 1.0 - mul(S, S)
    bad = near | (q.hull()[0] <= 0)
    if bad.any():
        q = TM(q.c.copy(), q.r.copy())
        q.c[:, bad] = 0.0
        q.c[0, bad] = 1.0
        q.r = np.where(bad, 0.0, q.r)
        q._s = None
    # sin and the root rotate to the centre as in atan2
    A = atan2(S, powf(q, 0.5))
    if bad.any():
        l, h = np.arcsin(np.clip(lo, -1, 1)) - 1e-15, np.arcsin(np.clip(hi, -1, 1)) + 1e-15
        m = 0.5 * (l + h)
        A.c[:, bad] = 0.0
        A.c[0] = np.where(bad, m, A.c[0])
        A.r = np.where(bad, (h - m) * UP, A.r)
        A._s = None
    return A


# ------------------------------------------------------------------ decisions
def decide(T, op):
    """whether T op 0 on this path; equality of enclosures that are not constant is taken to fail"""
    if not isinstance(T, TM):
        T = float(T)
        return {"<": T < 0, "<=": T <= 0, ">": T > 0, ">=": T >= 0, "==": T == 0, "!=": T != 0}[op]
    lo, hi = T.hull()
    if op in ("==", "!="):
        z = (~T.c.any(axis=0) & (T.r <= 1e-300)).astype(int)
        v = CUR.choose(z, z)
        return bool(v) == (op == "==")
    if op in ("<", "<=", ">", ">="):
        gt = lo > 0 if op in ("<=", ">") else lo >= 0
        lt = hi < 0 if op in (">=", "<") else hi <= 0
        tie = ~gt & ~lt & (np.abs(lo) <= NOISE) & (np.abs(hi) <= NOISE)
        gt, lt = gt & ~tie, lt | tie
        v = CUR.choose(np.where(gt, 1, 0), np.where(lt, 0, 1))
        return bool(v) if op in (">", ">=") else not v
    raise ValueError(op)


def floor_int(T):
    lo, hi = T.hull()
    with np.errstate(invalid="ignore"):
        lo, hi = [np.where(np.isfinite(x), x, 0) for x in (lo, hi)]
    a, b = np.floor(lo).astype(int), np.floor(hi).astype(int)
    tie = (b == a + 1) & (hi - b <= 1e-12) & (T.dev() < 1e-9)     # a value equal to an integer up to rounding
    a = np.where(tie, b, a)
    return CUR.choose(a, b)


def isclose(a, b, rtol, atol, np_rule):
    if not isinstance(a, TM) and not isinstance(b, TM):
        return np.isclose(a, b, rtol, atol) if np_rule else math.isclose(a, b, rel_tol=rtol, abs_tol=atol)
    for v in (a, b):
        if not isinstance(v, TM) and not math.isfinite(v):
            return False
    d = abs(lift(a) - b)
    if np_rule:
        return decide(lift(abs(lift(b))) * rtol + atol - d, ">=")
    m, mb = abs(lift(a)), abs(lift(b))
    lim = (mb if decide(mb - m, ">") else m) * rtol
    if atol and decide(lim - atol, "<"):
        lim = lift(atol)
    return decide(lim - d, ">=")


def _sqrt(T, n):
    lo, hi = T.hull()
    tie = (np.abs(lo) <= NOISE) & (np.abs(hi) <= NOISE)         # rounding of a zero
    if CUR.choose(np.where((lo >= 0) | tie, 0, np.where(hi < 0, 1, 0)), np.where((hi < 0) & ~tie, 1, np.where((lo >= 0) | tie, 0, 1))):
        if n:
            shims.warning("invalid value encountered in sqrt")
            return float("nan")
        raise ValueError("math domain error")
    return powf(T, 0.5)


def _flip(T, f):
    """an odd function, computed for a non-negative centre"""
    s = np.where(T.c[0] < 0, -1.0, 1.0)
    return f(T.scale(s)).scale(s)


def _asinh(T, n):
    return _flip(T, lambda t: log(t + powf(mul(t, t) + 1.0, 0.5)))


def _atanh(T, n):
    if decide(T - 1.0, ">=") or decide(T + 1.0, "<="):
        raise shims.Unsupported("atanh outside its domain")
    return log((T + 1.0) / (1.0 - T)) * 0.5


def _cbrt(T, n):
    lo, hi = T.hull()
    if decide(T, "<"):
        return -powf(-T, 1 / 3)
    return powf(T, 1 / 3)


def _sign(T, n):
    return 1.0 if decide(T, ">") else -1.0


ONE = {"sin": lambda T, n: _sc(T, 0), "cos": lambda T, n: _sc(T, 1), "tan": lambda T, n: sincos(T)[0] / sincos(T)[1],
       "sqrt": _sqrt, "asin": asin, "acos": lambda T, n: math.pi / 2 - asin(T, n), "atan": lambda T, n: atan(T),
       "radians": lambda T, n: T * (math.pi / 180), "degrees": lambda T, n: T * (180 / math.pi), "exp": lambda T, n: exp(T),
       "log": lambda T, n: log(T), "asinh": _asinh, "atanh": _atanh, "cbrt": _cbrt, "sign": _sign,
       "sinh": lambda T, n: (exp(T) - exp(-T)) * 0.5, "cosh": lambda T, n: (exp(T) + exp(-T)) * 0.5,
       "fabs": lambda T, n: abs(T), "absolute": lambda T, n: abs(T), "square": lambda T, n: mul(T, T), "negative": lambda T, n: -T,
       "floor": lambda T, n: float(floor_int(T)) if n else floor_int(T), "ceil": lambda T, n: -floor_int(-T),
       "trunc": lambda T, n: T.__trunc__()}


def _tanh(T, n):
    e = exp(T * 2.0)
    return 1.0 - 2.0 / (e + 1.0)


ONE["tanh"] = _tanh


def _copysign(x, y):
    neg = decide(lift(y), "<") if isinstance(y, TM) else math.copysign(1.0, y) < 0
    a = abs(x)
    return -a if neg else a


def _fmod(x, m):
    if isinstance(x, TM) and not isinstance(m, TM):
        q = lift(x * (1.0 / float(m))).__trunc__()
        return x - float(m) * q if q else x
    raise shims.Unsupported("fmod by an enclosure")


MANY = {"hypot": lambda n, *a: hypot(*a), "atan2": lambda n, y, x: atan2(y, x), "fmod": lambda n, x, m: _fmod(x, m), "copysign": lambda n, x, y: _copysign(x, y),
        "minimum": lambda n, a, b: a if decide(lift(b) - a, ">=") else b, "maximum": lambda n, a, b: a if decide(lift(a) - b, ">=") else b,
        "power": lambda n, x, y: power(lift(x), y), "float_power": lambda n, x, y: power(lift(x), y), "pow": lambda n, x, y: power(lift(x), y),
        "remainder": lambda n, x, y: lift(x) % y, "mod": lambda n, x, y: lift(x) % y, "multiply": lambda n, x, y: x * y,
        "add": lambda n, x, y: x + y, "subtract": lambda n, x, y: x - y, "divide": lambda n, x, y: x / y, "true_divide": lambda n, x, y: x / y}
MANY["fmin"], MANY["fmax"] = MANY["minimum"], MANY["maximum"]


def call(name, np_like, args):
    if len(args) == 1 and name in ONE:
        T = args[0]
        if name in T.memo and name not in ("sin", "cos"):
            r = T.memo[name]
        else:
            r = ONE[name](T, np_like)
            if isinstance(r, TM) and name not in ("abs", "absolute", "fabs"):
                T.memo[name] = r
    elif name in MANY:
        for a in args:
            if not isinstance(a, TM) and a != a:
                return float("nan")
        r = MANY[name](np_like, *args)
    else:
        raise shims.Unsupported(f"function {name} of an enclosure")
    if isinstance(r, TM):
        if r.np_like != np_like:
            r2 = TM(r.c, r.r, np_like)
            r2.memo = r.memo
            return r2
        return r
    return np.float64(r) if np_like and isinstance(r, float) else r

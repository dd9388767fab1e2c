"""Symbolic side of the single-source harnesses (see harness/concrete.py for the replay side)."""
from __future__ import annotations
import math
import re
from fractions import Fraction as Fr

import numpy as np

from . import term, shims
from .term import Sym, Unsupported, npy, plain, decide
from .engine import PathAbort


class Skip(Exception):
    pass


class K:
    """what a harness sees while it is executed symbolically"""
    symbolic = True

    def __init__(self, explorer, mode):
        self.ex, self.mode = explorer, mode
        self.numpy = mode == "numpy"

    # ---- inputs -----------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_open=False, sample=None):
        return term.CTX.input(name, lo, hi, sample, lo_open)

    def angle(self, name, lo=-1, hi=1, deg=False, hi_open=False, sample=None):
        return term.CTX.angle(name, lo, hi, deg, hi_open, sample)

    def latitude(self, name, deg=False):
        return self.angle(name, Fr(-1, 2), Fr(1, 2), deg)

    def unit3(self, name):
        """an arbitrary unit vector: three reals with one square replaced"""
        cx = term.CTX
        n = [f"{name}_{i}" for i in (1, 2, 3)]

        def direction(r, s):
            kind = r.random()
            v = [r.gauss(0, 1) for _ in range(3)] if kind > 0.15 else [0.0, 0.0, 0.0]
            if not any(v):
                v[r.randrange(3)] = r.choice((1.0, -1.0))
            m = math.sqrt(sum(c * c for c in v))
            for a, c in zip(n, v):
                s["dir_" + a] = c / m
            return v[0] / m
        x = self.real(n[0], -1, 1, sample=direction)
        y = self.real(n[1], -1, 1, sample=lambda r, s: s["dir_" + n[1]])
        z = self.real(n[2], -1, 1, sample=lambda r, s: s["dir_" + n[2]])
        v = cx.inputs[n[2]]["var"]
        p = (1 - x * x - y * y).num
        cx.vars[v].num = lambda ev: math.copysign(1.0, ev.inp(n[2])) * ev.M.sqrt(max(0, ev.poly(p)))
        cx.vars[v].cons = [lambda e, v=v, p=p: (e.need(p), e.cons.append(e.var(v) * e.var(v) == e.poly(p)))]
        cx.ring.set_rule(v, 2, p)
        return (x, y, z)

    def assume_unit(self, d):
        """assumed: the three (uninterpreted) numbers are a unit vector (a fact decided by another case)"""
        cx = term.CTX
        (m, c), = d[2].num.items()
        (v, e), = m
        assert e == 1 and c == 1 and not d[2].den
        p = (1 - plain(d[0]) * plain(d[0]) - plain(d[1]) * plain(d[1])).num
        cx.vars[v].cons = (cx.vars[v].cons or []) + [lambda e, v=v, p=p: (e.need(p), e.cons.append(e.var(v) * e.var(v) == e.poly(p)))]
        num = cx.vars[v].num
        cx.vars[v].num = lambda ev: math.copysign(1.0, num(ev)) * ev.M.sqrt(max(0, ev.poly(p)))
        for i in (0, 1):
            (m, _), = d[i].num.items()
            j = m[0][0]
            f = cx.vars[j].num
            cx.vars[j].lo, cx.vars[j].hi = -1.0, 1.0
            cx.vars[j].num = lambda ev, f=f: 0.7 * ev.M.sin(f(ev) * 3 + 0.1)
        cx.ring.set_rule(v, 2, p)

    def fact(self, x):
        """a fact the solver is handed: x >= 0 (written as a sum of squares or a standard inequality)"""
        term.CTX.assume_cond(Sym.lift(x), ">=")

    def integer(self, name, lo, hi, sample=None):
        cx = term.CTX
        x = self.real(name, lo, hi, sample=sample or (lambda r, s: float(r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi)]))))
        v = cx.inputs[name]["var"]
        cx.vars[v].kind = "int"
        return x

    def floor(self, x):
        return term.sfloor(x)

    def time(self, name, lo, hi, tz=None):
        """an instant between two dates (seconds since 2000-01-01T00:00 UTC as a real)"""
        from . import fakedt
        import datetime as dt
        lo, hi = [int((dt.datetime(*d) - dt.datetime(2000, 1, 1)).total_seconds()) for d in (lo, hi)]
        edges = [int((dt.datetime(y, m, 1) - dt.datetime(2000, 1, 1)).total_seconds()) for y in range(1970, 2030) for m in (1, 7)]
        edges = [e for e in edges if lo < e < hi] or [lo]
        s = self.real(name, lo, hi, sample=lambda r, s: float(r.choice([r.randint(lo, hi), r.randint(lo, hi), r.choice(edges), r.choice(edges) + 0.25, r.choice(edges) - 0.5])))
        return fakedt.datetime.at(s, tz)

    def timezone(self, minutes):
        from . import fakedt
        return fakedt.timezone(fakedt.timedelta(minutes=minutes))

    def in_zone(self, t, minutes):
        """the same instant told by a clock a fixed number of minutes ahead of UTC"""
        from . import fakedt
        off = fakedt.timedelta.of(Sym.lift(minutes) * 60)
        return fakedt.datetime.at(t.s + off.s, fakedt.timezone(off))

    def datetime64(self, t):
        class D64:
            def astype(self, cls):
                return t
        return D64()

    def timespan(self, seconds):
        from . import fakedt
        return fakedt.timedelta(seconds=seconds)

    def seconds(self, t):
        """seconds since 2000-01-01T00:00 UTC of a time"""
        return t.utc

    def date(self, *fields, tz=None, naive=False):
        from . import fakedt
        return fakedt.datetime.of_fields(tz=None if naive else tz or fakedt.UTC, **dict(zip(("year", "month", "day", "hour", "minute", "second", "microsecond"), fields)))

    def stub_julian(self, P):
        """the Julian date of an instant given by its seconds (decided for calendar fields by C20)"""
        orig = P.earth_orientation.juliandate
        eu = P.earth_orientation

        def juliandate(time):
            return eu.ensure_utc(time).utc / 86400 + Fr("2451544.5")
        for m in list(P.mods.values()):
            for at, v in list(vars(m).items()):
                if v is orig:
                    setattr(m, at, juliandate)
        juliandate._stub_of = orig

    def stub_rotation(self, P, path):
        """an arbitrary rotation matrix, uninterpreted in the arguments of the function"""
        import inspect
        if getattr(self.ex, "no_stubs", False):
            return
        self.ex.stubbed = True
        mod, _, fname = path.rpartition(".")
        orig = getattr(getattr(P, mod), fname)
        orig = getattr(orig, "_stub_of", orig)
        sig = inspect.signature(orig)

        def stub(*a, **kw):
            ba = sig.bind(*a, **kw)
            ba.apply_defaults()
            flat = []
            for v in ba.arguments.values():
                flat += _flat(v)
            (s1, c1), (s2, c2), (s3, c3) = [term.sincos(term.congruent(path, i, flat, False, False)) for i in range(3)]
            z1 = [[c1, s1, 0], [-s1, c1, 0], [0, 0, 1]]
            y = [[c2, 0, -s2], [0, 1, 0], [s2, 0, c2]]
            z2 = [[c3, s3, 0], [-s3, c3, 0], [0, 0, 1]]

            def mm(p, q):
                return [[p[i][0] * q[0][j] + p[i][1] * q[1][j] + p[i][2] * q[2][j] for j in range(3)] for i in range(3)]
            r = mm(z1, mm(y, z2))
            return tuple(tuple(npy(Sym.lift(x)) if self.numpy else x for x in row) for row in r)
        stub._stub_of = orig
        for m in P.mods.values():
            for at, v in list(vars(m).items()):
                if v is orig or getattr(v, "_stub_of", None) is orig:
                    setattr(m, at, stub)

    def opaque_trig(self):
        """angles that are sums stay whole inside sine and cosine"""
        term.CTX.opaque_trig = True

    @property
    def pi(self):
        return term.CTX.pi()

    def turn(self, deg):
        return 360 if deg else 2 * term.CTX.pi()

    def rad(self, x, deg):
        return Sym.lift(x) * term.CTX.pi() / 180 if deg else Sym.lift(x)

    def from_rad(self, x, deg):
        return Sym.lift(x) * 180 / term.CTX.pi() if deg else x

    def const(self, x):
        """exact rational"""
        return Sym.lift(Fr(x)) if not isinstance(x, str) else Sym.lift(Fr(x))

    def ellipsoid(self, P, tag="", a_name=None, sphere=False):
        """an arbitrary ellipsoid a >= b > 0 built by the package's own class"""
        a = self.real("a" + tag, 0, None, lo_open=True, sample=lambda r, s: r.choice([6378137.0, 6378137.0, 3396190.0, 71492000.0, 1e3 * r.random() + 1]))
        if sphere:
            return P.ellipsoid.Ellipsoid(a, a), a, a
        b = self.real("b" + tag, 0, None, lo_open=True,
                      sample=lambda r, s, t=tag: s["a" + t] * r.choice([1.0, 0.99664718933525, 0.9, 0.5 + 0.5 * r.random()]))
        term.CTX.assume_cond(a - b, ">=")
        return P.ellipsoid.Ellipsoid(a, b), a, b

    def arr(self, *xs):
        out = np.empty((len(xs),), dtype=object)
        for i, x in enumerate(xs):
            out[i] = npy(Sym.lift(x)) if self.numpy else x
        return out

    def arr2(self, rows):
        out = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                out[i, j] = npy(Sym.lift(x))
        return out

    # ---- functions ---------------------------------------------------------
    def sin(self, x):
        return term.sincos(x)[0]

    def cos(self, x):
        return term.sincos(x)[1]

    def tan(self, x):
        return term.stan(x, True)

    def sqrt(self, x):
        x = Sym.lift(x)
        if decide(x, "<"):
            return float("nan")
        return term.ssqrt(x)

    def atan2(self, y, x):
        return term.satan2(y, x)

    def atan(self, x):
        return term.satan(x)

    def asin(self, x):
        return term.sasin(x)

    def acos(self, x):
        return term.sasin(x, True)

    def isnan(self, x):
        x = self._scalar(x)
        return isinstance(x, float) and x != x

    def cbrt(self, x):
        return term.scbrt(x)

    def log(self, x):
        return shims.x_log(x, True)

    def atanh(self, x):
        return shims.x_atanh(x, True)

    def asinh(self, x):
        return shims.EXACT1["asinh"](x, True)

    def abs(self, x):
        return abs(Sym.lift(x)) if not isinstance(x, Sym) else abs(x)

    # ---- conditions --------------------------------------------------------
    def assume(self, cond):
        """restrict to a condition (a comparison already decided on this path)"""
        if not cond:
            raise PathAbort()

    def _scalar(self, x):
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise Shape(f"expected one value, got shape {x.shape}")
            x = x.reshape(-1)[0]
        return x

    def eq(self, name, got, want, tol=1e-9, scale=0, atol=0):
        got, want = self._scalar(got), self._scalar(want)
        if isinstance(got, (float, int, np.floating)) and isinstance(want, (float, int, np.floating)) and \
                not (math.isfinite(got) and math.isfinite(want)):
            return self.true(name, (got != got and want != want) or got == want)
        d = Sym.lift(got)
        if d is None:
            return self.true(f"{name}: result is {type(got).__name__}", False)
        w = Sym.lift(want)
        if isinstance(d, float) or isinstance(w, float):
            if isinstance(d, float) and isinstance(w, float) and (d == w or (d != d and w != w)):
                return self.true(name, True)
            return self.true(f"{name}: {got} against {want}", False)
        r = d - w
        if atol and term.CTX.ring.reduce(r.num):
            self.ex.oblige(name + " (upper)", w + Fr(atol) - d, ">=", tol, [d, w, scale])
            self.ex.oblige(name + " (lower)", d + Fr(atol) - w, ">=", tol, [d, w, scale])
            return
        self.ex.oblige(name, r, "==", tol, [d, w, scale])

    def ang(self, name, got, want, deg=False, tol=1e-9, scale=0):
        """equal angles modulo a full turn; scale = condition number of the angle (concrete side only)"""
        got, want = self._scalar(got), self._scalar(want)
        g, w = Sym.lift(got), Sym.lift(want)
        if g is None or isinstance(g, float) or isinstance(w, float):
            return self.true(f"{name}: {got}", False)
        d = self.rad(g - w, deg)
        if isinstance(d, Sym) and not term.CTX.ring.reduce(d.num):
            return self.ex.oblige(name, d, "==", tol, [0])
        s, c = term.sincos(self.rad(g, deg))
        s2, c2 = term.sincos(self.rad(w, deg))
        self.ex.oblige(name + " (sine)", s - s2, "==", tol, [1])
        self.ex.oblige(name + " (cosine)", c - c2, "==", tol, [1])

    def ge(self, name, a, b, tol=1e-9, scale=0):
        a, b = Sym.lift(self._scalar(a)), Sym.lift(self._scalar(b))
        if isinstance(a, float) or isinstance(b, float):
            return self.true(f"{name}: {a} >= {b}", (a if isinstance(a, float) else 0) >= (b if isinstance(b, float) else 0))
        self.ex.oblige(name, a - b, ">=", tol, [a, b, scale])

    def gt(self, name, a, b, tol=1e-9):
        a, b = Sym.lift(self._scalar(a)), Sym.lift(self._scalar(b))
        if isinstance(a, float) or isinstance(b, float):
            return self.true(f"{name}: {a} > {b}", (a if isinstance(a, float) else 0) > (b if isinstance(b, float) else 0))
        self.ex.oblige(name, a - b, ">", tol, [a, b])

    def between(self, name, x, lo, hi, tol=1e-9, hi_open=False):
        self.ge(name + " >= lower bound", x, lo, tol)
        if hi_open:
            self.gt(name + " < upper bound", hi, x, tol)
        else:
            self.ge(name + " <= upper bound", hi, x, tol)

    def true(self, name, cond):
        self.ex.claim(name, bool(cond))

    def positive(self, x):
        """assumed: x > 0 (a fact decided by another property)"""
        term.CTX.assume_cond(Sym.lift(x), ">")

    def nonneg(self, x):
        term.CTX.assume_cond(Sym.lift(x), ">=")

    def near(self, cond):
        """is the condition met?  (concrete side: with a tolerance, either answer may be taken near equality)"""
        return bool(cond)

    def vec(self, name, got, want, tol=1e-9, scale=0, atol=0):
        got, want = list(got), list(want)
        self.true(name + ": number of components", len(got) == len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            self.eq(f"{name}[{i}]", g, w, tol, scale, atol)

    def raises(self, name, exc, fn):
        try:
            fn()
        except exc:
            return self.true(name, True)
        except (Unsupported, Shape):
            raise
        except Exception as e:
            return self.true(f"{name}: raised {type(e).__name__}", False)
        self.true(f"{name}: nothing raised", False)

    def norm2(self, v):
        return v[0] * v[0] + v[1] * v[1] + v[2] * v[2]

    def is_pole(self, lat, deg):
        """exactly +-90 degrees (a decision of the path)"""
        return decide(term.sincos(self.rad(lat, deg))[1], "==")


class Shape(Exception):
    pass


# ------------------------------------------------------------------ uninterpreted stand-ins
def _flat(x):
    """canonical form of an argument for congruence: list of Syms / hashables"""
    if x is None or isinstance(x, (str, bool)):
        return [("c", x)]
    s = Sym.lift(x) if not isinstance(x, np.ndarray) else None
    if isinstance(s, Sym):
        return [s]
    if hasattr(x, "astimezone") and getattr(x, "s", None) is not None:
        return [x.utc]
    if hasattr(x, "semimajor_axis"):
        return [Sym.lift(x.semimajor_axis), Sym.lift(x.semiminor_axis)]
    if isinstance(x, np.ndarray) and x.size == 1:
        return _flat(x.reshape(-1)[0])
    return [("o", repr(x) if type(x).__module__ == "datetime" else id(x))]


ANGLEARG = re.compile(r"(.*_)?(lat|lon|az|el|azim|azimuth|elevation|heading|tilt|yaw|pitch|roll)\d*$")


def make_stub(k, P, path, nout, angles=(), elementwise=False):
    """replace a function of the package everywhere by an uninterpreted function of its arguments

    angles: indices of outputs that are angles (radians inside; scaled when the call has deg=True)."""
    import inspect
    mod, _, fname = path.rpartition(".")
    orig = getattr(getattr(P, mod), fname)
    orig = getattr(orig, "_stub_of", orig)
    sig = inspect.signature(orig)
    ellcls = P.ellipsoid

    def stub(*a, **kw):
        ba = sig.bind(*a, **kw)
        ba.apply_defaults()
        deg = ba.arguments.get("deg", False)
        if elementwise:
            arrs = {n: v for n, v in ba.arguments.items() if isinstance(v, np.ndarray) and v.shape}
            if arrs:
                bc = np.broadcast(*arrs.values())
                outs = [np.empty(bc.shape, dtype=object) for _ in range(max(nout, 1))]
                for idx, vals in zip(np.ndindex(*bc.shape), bc):
                    one = dict(ba.arguments)
                    one.update(zip(arrs, vals))
                    r = stub(**one)
                    for o, x in zip(outs, r if nout else (r,)):
                        o[idx] = x
                return tuple(outs) if nout else outs[0]
        flat = []
        for n, v in ba.arguments.items():
            if n == "deg":
                continue
            if n == "ell" and v is None:
                v = ellcls.resolve_ellipsoid(None) if hasattr(ellcls, "resolve_ellipsoid") else ellcls.Ellipsoid.from_name("wgs84")
            if deg and ANGLEARG.match(n) and isinstance(Sym.lift(v), Sym):
                v = Sym.lift(v) * term.CTX.pi() / 180
            flat += _flat(v)
        if nout == 0:
            return term.congruent(path, 0, flat, k.numpy, deg if 0 in angles else False)
        return tuple(term.congruent(path, i, flat, k.numpy, deg if i in angles else False) for i in range(nout))
    stub._stub_of = orig
    stub.__name__ = fname
    n = 0
    for m in P.mods.values():
        for at, v in list(vars(m).items()):
            if v is orig or getattr(v, "_stub_of", None) is orig:
                setattr(m, at, stub)
                n += 1
    return stub


def _k_stub(self, P, path, nout, angles=()):
    if getattr(self.ex, "no_stubs", False):
        return
    self.ex.stubbed = True
    make_stub(self, P, path, nout, angles)


K.stub = _k_stub


def _k_stub_el(self, P, path, nout, angles=()):
    if getattr(self.ex, "no_stubs", False):
        return
    self.ex.stubbed = True
    make_stub(self, P, path, nout, angles, elementwise=True)


K.stub_elementwise = _k_stub_el

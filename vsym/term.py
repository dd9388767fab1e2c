"""Exact symbolic real terms.

A Sym is a quotient of polynomials over Q in *variables*.  Variables are inputs, pi, sines and
cosines of angle atoms, roots, inverse-trigonometric values, integer quotients, opaque values.
Each carries its defining constraints (for the SMT solver) and a numeric evaluator (to turn a
solver model / path into a concrete input that is replayed against the real code).

Comparisons between Syms are decisions of the current path (see engine.Explorer).
"""
from __future__ import annotations
import math
import numpy as np
from fractions import Fraction as Fr
import numbers

from .poly import Ring, ONE, pvars, pkey, is_const, const_val, content_mono, div_mono, primitive, lead_mono

PI = math.pi
INF = float("inf")


class Unsupported(Exception):
    """the code reached something the encoding cannot express"""


class VarInfo:
    __slots__ = ("name", "kind", "num", "cons", "lo", "hi", "deps", "data")

    def __init__(self, name, kind, num, lo=-INF, hi=INF, cons=None, deps=(), data=None):
        self.name, self.kind, self.num = name, kind, num
        self.lo, self.hi = lo, hi
        self.cons = cons or []
        self.deps = deps
        self.data = data


CTX = None  # current context


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def rationalise(x):
    """the exact real a float constant of the source stands for -> Sym or number"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fr):
        return x
    x = float(x)
    if x != x or x in (INF, -INF):
        return x
    if x == int(x) and abs(x) < 1e18:
        return int(x)
    r = repr(abs(x))
    man = r.split("e")[0].replace(".", "").strip("0")
    if len(man) <= 13:
        return Fr(repr(x))
    for base, tag in ((1.0, None), (PI, "pi"), (1.0 / PI, "ipi")):
        y = x / base
        f = Fr(y).limit_denominator(1000000 if tag is None else 6480000)
        if f and abs(float(f) - y) <= 2.5e-16 * abs(y) and f.denominator * max(1, abs(f.numerator)) < 10 ** (11 if tag is None else 9):
            if tag is None:
                return f
            s = CTX.pi() if tag == "pi" else 1 / CTX.pi()
            return s * f
    return Fr(repr(x))


class Context:
    def __init__(self, explorer=None):
        self.ring = Ring()
        self.vars = []
        self.factors = []          # interned denominator factors
        self.factor_ids = {}
        self.atoms = {}            # monomial -> trig base
        self.cache = {}
        self.explorer = explorer
        self.opaque_trig = False
        self.inputs = {}
        self.path = []             # decided conditions: (poly, op) op in '>','>=','==','!='
        self.pathkeys = {}
        self.assume = []           # assumptions (poly, op)
        self.numpy_mode = True
        self._pi = None
        self.fresh = 0
        self.stats = {}
        self.factkeys = set()
        self.memo = {}

    # ------------------------------------------------------------ variables
    def newvar(self, name, kind, num, **kw):
        v = self.ring.new(name)
        self.vars.append(VarInfo(name, kind, num, **kw))
        return v

    def sym(self, v):
        return Sym(self.ring.var(v))

    def pi(self):
        if self._pi is None:
            v = self.newvar("pi", "pi", lambda ev: ev.M.pi, lo=3.14159265358979, hi=3.14159265358980,
                            cons=[lambda e: e.lin("pi", "314159265358979323846/100000000000000000000",
                                                  "314159265358979323847/100000000000000000000")])
            self._pi = v
        return Sym(self.ring.var(self._pi))

    def input(self, name, lo=None, hi=None, sample=None, lo_open=False):
        """real input; bounds are numbers"""
        v = self.newvar(name, "input", lambda ev, n=name: ev.inp(n),
                        lo=-INF if lo is None else float(lo), hi=INF if hi is None else float(hi))
        s = Sym(self.ring.var(v))
        if lo is not None:
            self.assume_cond(s - lo, ">" if lo_open else ">=")
        if hi is not None:
            self.assume_cond(hi - s, ">=")
        if lo_open and lo is not None and lo >= 0:
            self.vars[v].data = "pos"
        self.inputs[name] = dict(var=v, lo=lo, hi=hi, sample=sample, kind="real")
        self._decl(name)
        return s

    def _decl(self, name):
        if self.explorer is not None:
            self.explorer.ensure(name, self.inputs[name])

    def angle(self, name, lo, hi, deg=False, hi_open=False, sample=None):
        """angle input, bounds lo*pi..hi*pi (rational multiples); returns degrees or radians Sym"""
        v = self.newvar(name, "angle", lambda ev, n=name: ev.ang(n), lo=float(lo) * PI, hi=float(hi) * PI)
        s = Sym(self.ring.var(v))
        pi = self.pi()
        self.assume_cond(s - pi * Fr(lo), ">=")
        self.assume_cond(pi * Fr(hi) - s, ">" if hi_open else ">=")
        self.inputs[name] = dict(var=v, lo=lo, hi=hi, sample=sample, kind="angle", deg=deg)
        self.base(((v, 1),), 1)
        self._decl(name)
        return s * 180 / pi if deg else s

    # ------------------------------------------------------------ assumptions
    def assume_cond(self, s, op):
        p = strip_pos(s.sign_poly())
        self.assume.append((p, op))

    def fact(self, s):
        """s is non-negative by construction: tell the solver"""
        p = strip_pos(self.ring.reduce(s.sign_poly()))
        if len(p) < 2 or len(p) > 400:
            return
        k = pkey(primitive(p)[1])
        if k not in self.factkeys:
            self.factkeys.add(k)
            self.assume.append((p, ">="))

    def find(self, kind, args):
        """value computed before for equal arguments (equality in the current normal form)"""
        for a, r in self.memo.get(kind, ()):
            if len(a) == len(args) and all(same(x, y) for x, y in zip(a, args)):
                return r
        return None

    def keep(self, kind, args, r):
        self.memo.setdefault(kind, []).append((tuple(args), r))
        return r

    # ------------------------------------------------------------ denominators
    def factor(self, p):
        """intern primitive polynomial p -> id"""
        k = pkey(p)
        i = self.factor_ids.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(p)
            self.factor_ids[k] = i
        return i

    # ------------------------------------------------------------ trig
    def base(self, mono, d):
        """trig base for the atom `mono` such that d divides its denominator D"""
        b = self.atoms.get(mono)
        R = self.ring
        if b is None:
            D = d
            b = dict(D=D)
            nm = "*".join(f"{self.ring.names[v]}^{e}" if e > 1 else self.ring.names[v] for v, e in mono) or "1"
            lab = nm if D == 1 else f"{nm}/{D}"

            def ang(ev, mono=mono, D=D):
                return ev.mono(mono) / D
            c = self.newvar(f"cos({lab})", "cos", lambda ev: ev.M.cos(ang(ev)), lo=-1.0, hi=1.0)
            s = self.newvar(f"sin({lab})", "sin", lambda ev: ev.M.sin(ang(ev)), lo=-1.0, hi=1.0)
            deps = [{mono: 1}]
            if mono and len(mono) == 1 and mono[0][1] == 1:
                self.trig_range(s, c, mono[0][0], D)
            self.vars[s].deps = ({((c, 1),): 1},)
            self.vars[s].cons = [lambda e, s=s, c=c: e.unit(s, c)]
            self.vars[c].cons = [lambda e, s=s, c=c: e.unit(s, c), lambda e, s=s, c=c, mono=mono, D=D: e.triglemmas(s, c, mono, D)]
            self.vars[s].cons.append(lambda e, s=s, c=c, mono=mono, D=D: e.triglemmas(s, c, mono, D))
            R.set_rule(s, 2, {ONE: 1, ((c, 2),): -1})
            b["s"], b["c"] = Sym(R.var(s)), Sym(R.var(c))
            b["vars"] = (s, c)
            self.atoms[mono] = b
            return b
        D = b["D"]
        if D % d == 0:
            return b
        from math import gcd
        D2 = D * d // gcd(D, d)
        k = D2 // D
        if b.get("vars"):
            old = b["vars"]
            del self.atoms[mono]
            nb = self.base(mono, D2)
            sk, ck = multiple(nb["s"], nb["c"], k)
            R.set_rule(old[0], 1, sk.num)
            R.set_rule(old[1], 1, ck.num)
            return nb
        # inverse-trig value: halve
        while D2 != D:
            if (D2 // D) % 2:
                raise Unsupported("angle fraction of an inverse trigonometric value")
            s, c = b["s"], b["c"]
            ch = ssqrt((1 + c) / 2)
            if b.get("full"):       # angle in (-pi, pi]: half angle has cos >= 0
                pass
            if decide(ch, "=="):
                sh, ch = Sym.const(1), Sym.const(0)
            else:
                sh = s / (2 * ch)
            b = dict(D=D * 2, s=sh, c=ch, full=True)
            D *= 2
        self.atoms[mono] = b
        return b

    def trig_range(self, s, c, v, D):
        lo, hi = self.vars[v].lo / D, self.vars[v].hi / D
        if lo >= -PI / 2 - 1e-12 and hi <= PI / 2 + 1e-12:
            self.vars[c].lo = 0.0
        if lo >= -1e-12 and hi <= PI + 1e-12:
            self.vars[s].lo = 0.0

    def angle_value(self, name, s, c, num, lo, hi, extra=None):
        """new variable: an angle with given sine/cosine Syms, value in [lo*pi, hi*pi]"""
        self.fresh += 1
        v = self.newvar(f"{name}#{self.fresh}", "anglevar", num, lo=float(lo) * PI - 1e-15, hi=float(hi) * PI + 1e-15,
                        deps=(s.num, c.num))
        info = self.vars[v]
        info.data = (s, c, lo, hi)
        info.cons = [lambda e, v=v: e.anglevar(v)]
        if extra:
            info.cons.append(extra)
        self.atoms[((v, 1),)] = dict(D=1, s=s, c=c, full=(lo >= -1 and hi <= 1))
        return Sym(self.ring.var(v))

    # ------------------------------------------------------------ numeric
    def evaluator(self, inputs, M=math):
        return Evaluator(self, inputs, M)

    def interval_sign(self, p):
        """sign of polynomial p from variable bounds: '+','-','0','+0','-0' or None"""
        if not p:
            return "0"
        lo = hi = 0.0
        strict = False
        for m, c in p.items():
            l = h = float(c)
            nz = True
            for v, e in m:
                i = self.vars[v]
                a, b = i.lo, i.hi
                if e > 1:
                    if e % 2 == 0:
                        if a >= 0:
                            a, b = a ** e, b ** e
                        elif b <= 0:
                            a, b = b ** e, a ** e
                        else:
                            a, b = 0.0, max(-a, b) ** e
                    else:
                        a, b = a ** e, b ** e
                if i.data is None or i.data != "pos":
                    nz = nz and (a > 0 or b < 0)
                c4 = [_m(l, a), _m(l, b), _m(h, a), _m(h, b)]
                l, h = min(c4), max(c4)
            if (l >= 0 or h <= 0) and nz:
                strict = True
            lo += l
            hi += h
        if lo != lo or hi != hi:
            return None
        if len(p) > 1 and not (lo == 0 or hi == 0):
            sl = 1e-12 * max(abs(lo) if abs(lo) < INF else 0, abs(hi) if abs(hi) < INF else 0)
            lo, hi = lo - sl, hi + sl
            # all-same-sign terms stay definite
        if lo > 0:
            return "+"
        if hi < 0:
            return "-"
        if lo >= 0:
            return "+" if strict else "+0"
        if hi <= 0:
            return "-" if strict else "-0"
        return None


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


class Evaluator:
    def __init__(self, cx, inputs, M=math):
        self.cx, self.inputs, self.M = cx, inputs, M
        self.memo = {}

    def inp(self, n):
        x = self.inputs[n]
        return x if self.M is math else self.M.mpf(x)

    def ang(self, n):
        x = self.inputs[n]
        if self.M is math:
            return x
        k = round(x / (PI / 12))
        if abs(x - k * (PI / 12)) < 4e-16 * max(1, abs(x)):
            return self.M.pi * k / 12     # the float nearest to a multiple of 15 degrees stands for it
        return self.M.mpf(x)

    def v(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self.cx.vars[i].num(self)
            self.memo[i] = r
        return r

    def mono(self, m):
        r = 1
        for v, e in m:
            r = r * self.v(v) ** e
        return r

    def poly(self, p):
        t = 0
        for m, c in p.items():
            if type(c) is Fr:
                k = self.M.mpf(c.numerator) / c.denominator if self.M is not math else c.numerator / c.denominator
            else:
                k = c
            t = t + k * self.mono(m)
        return t

    def rat(self, s):
        if not isinstance(s, Sym):
            return s
        n = self.poly(s.num)
        for f, e in s.den.items():
            n = n / self.poly(self.cx.factors[f]) ** e
        return n


# ---------------------------------------------------------------------------
def is_real_number(x):
    return isinstance(x, numbers.Real) and not isinstance(x, Sym)


class Sym:
    """symbolic real (Python-float flavoured)"""
    __slots__ = ("num", "den", "note", "nn")
    np_like = False
    __array_priority__ = -1

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}
        self.note = None
        self.nn = False        # built from squares, roots and non-negative constants: known >= 0

    # ---- construction ----------------------------------------------------
    @staticmethod
    def const(c):
        r = Sym({ONE: c} if c else {})
        r.nn = c >= 0
        return r

    def _mk(self, other, num, den):
        cls = NSym if (self.np_like or getattr(other, "np_like", False) or _isnp(other)) else Sym
        return cls(num, den)

    def like(self, other_flags):
        return self

    @property
    def isconst(self):
        return not self.den and is_const(self.num)

    def constval(self):
        return const_val(self.num)

    # ---- arithmetic --------------------------------------------------------
    @staticmethod
    def lift(o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, (bool,)):
            return Sym.const(int(o))
        if isinstance(o, np.ndarray):
            return None
        if isinstance(o, numbers.Real) or _isnp(o):
            r = rationalise(o)
            if isinstance(r, Sym):
                return r
            if isinstance(r, float):
                return r  # inf / nan
            return Sym.const(r)
        return None

    def __add__(self, o, f=1):
        r = self._add(o, f)
        if f == 1 and self.nn and isinstance(r, Sym):
            q = Sym.lift(o)
            if isinstance(q, Sym) and q.nn:
                r.nn = True
        return r

    def _add(self, o, f):
        q = Sym.lift(o)
        if q is None:
            return NotImplemented
        if isinstance(q, float):
            return q if f == 1 else -q
        R = CTX.ring
        if self.den == q.den:
            return self._mk(o, R.add(self.num, q.num, f), self.den if R.add(self.num, q.num, f) else {})
        den = dict(self.den)
        for k, e in q.den.items():
            if den.get(k, 0) < e:
                den[k] = e
        n1 = _scale_to(self.num, self.den, den)
        n2 = _scale_to(q.num, q.den, den)
        n = R.add(n1, n2, f)
        return self._mk(o, *_simplify(n, den))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        return self.__add__(o, -1)

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __neg__(self):
        return type(self)(CTX.ring.scale(self.num, -1), self.den)

    def __pos__(self):
        return self

    def __mul__(self, o):
        q = Sym.lift(o)
        if q is None:
            return NotImplemented
        if isinstance(q, float):
            return _mul_inf(self, q)
        r = self._mul(o, q)
        if (self.nn and q.nn) or q is self or (q.num == self.num and q.den == self.den):
            r.nn = True
        return r

    def _mul(self, o, q):
        if not self.num or not q.num:
            return self._mk(o, {}, {})
        n = CTX.ring.mul(self.num, q.num)
        den = dict(self.den)
        for k, e in q.den.items():
            den[k] = den.get(k, 0) + e
        return self._mk(o, *_simplify(n, den))

    def __rmul__(self, o):
        return self.__mul__(o)

    def inverse(self):
        """1/self, assuming self != 0"""
        n, den = {ONE: 1}, {}
        c, p = primitive(CTX.ring.reduce(self.num))
        mono = content_mono(p)
        if mono:
            p = div_mono(p, mono)
            for v, e in mono:
                den[CTX.factor({((v, 1),): 1})] = e
        if not (len(p) == 1 and ONE in p):
            fc, fl = CTX_factor_den(p)
            c = c * fc
            for fp, fe in fl:
                i = CTX.factor(fp)
                den[i] = den.get(i, 0) + fe
        n = {ONE: Fr(1) / c}
        R = CTX.ring
        for k, e in self.den.items():
            n = R.mul(n, R.pow(CTX.factors[k], e))
        return _simplify(n, den)

    def __truediv__(self, o):
        q = Sym.lift(o)
        if q is None:
            return NotImplemented
        if isinstance(q, float):
            return self._mk(o, {}, {}) if q == q else q
        np_like = self.np_like or q.np_like or _isnp(o)
        if not q.isconst or not q.num:
            if decide(q, "=="):
                return div_by_zero(self, np_like)
        n, d = q.inverse()
        r = self * Sym(n, d)
        nn = self.nn and q.nn
        if np_like:
            r = NSym(r.num, r.den)
        r.nn = nn
        return r

    def __rtruediv__(self, o):
        q = Sym.lift(o)
        if q is None:
            return NotImplemented
        if isinstance(q, float):
            return _mul_inf(self, q)
        if _isnp(o) or self.np_like:
            q = NSym(q.num, q.den)
        return q / self

    def __pow__(self, n):
        return spow(self, n)

    def __rpow__(self, b):
        return spow(b, self)

    def __abs__(self):
        if decide(self, ">="):
            return self
        return -self

    def __mod__(self, m):
        return smod(self, m)

    def __rmod__(self, x):
        q = Sym.lift(x)
        return smod(q, self)

    def __floordiv__(self, m):
        r = smod(self, m)
        return (self - r) / m

    def __divmod__(self, m):
        r = smod(self, m)
        return (self - r) / m, r

    # ---- comparisons (decisions) ------------------------------------------
    def _b(self, v, o):
        if self.np_like or getattr(o, "np_like", False) or _isnp(o):
            import numpy
            return numpy.bool_(v)
        return v

    def _cmp(self, o, op):
        q = Sym.lift(o)
        if q is None:
            return NotImplemented
        if isinstance(q, float):
            if q != q:
                return self._b(op == "!=", o)
            big = q > 0
            return self._b({"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[op], o)
        d = self - q
        if op == "<":
            return self._b(not decide(d, ">="), o)
        if op == "<=":
            return self._b(not decide(d, ">"), o)
        if op == ">":
            return self._b(decide(d, ">"), o)
        if op == ">=":
            return self._b(decide(d, ">="), o)
        if op == "==":
            return self._b(decide(d, "=="), o)
        return self._b(not decide(d, "=="), o)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    __hash__ = object.__hash__

    def __bool__(self):
        return not decide(self, "==")

    def __float__(self):
        if self.isconst:
            return float(self.constval())
        raise Unsupported("float() of a symbolic value at a C boundary")

    def __int__(self):
        if self.isconst:
            return int(self.constval())
        raise Unsupported("int() of a symbolic value at a C boundary")

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __trunc__(self):
        return strunc(self)

    def __floor__(self):
        return sfloor(self)

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round(x, n)")
        # nearest integer; ties are a measure-zero set on which Python rounds to even: both allowed
        return sfloor(self + Fr(1, 2))

    # float API
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def is_integer(self):
        return decide(self - sfloor(self), "==")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{'N' if self.np_like else ''}Sym {show(self)}>"

    def __format__(self, spec):
        return "<sym>"

    # ---- helpers -----------------------------------------------------------
    def sign_poly(self):
        """polynomial with the same sign (denominators are non-zero)"""
        p = self.num
        R = CTX.ring
        for k, e in self.den.items():
            if e % 2:
                f = CTX.factors[k]
                s = CTX.interval_sign(f)
                if s in ("+", "+0"):
                    continue
                if s in ("-", "-0"):
                    p = R.scale(p, -1)
                    continue
                s = known_sign(f)
                if s == 1:
                    continue
                if s == -1:
                    p = R.scale(p, -1)
                    continue
                p = R.mul(p, f)
        return p


class NSym(Sym):
    """symbolic real, numpy.float64 flavoured"""
    __slots__ = ()
    np_like = True

    def any(self, *a, **k):
        import numpy
        return numpy.bool_(not decide(self, "=="))

    def all(self, *a, **k):
        return self.any()

    def squeeze(self, *a, **k):
        return self

    def copy(self):
        return self

    def item(self):
        return Sym(self.num, self.den)

    def sum(self, *a, **k):
        return self

    def ravel(self):
        import numpy
        r = numpy.empty((1,), dtype=object)
        r[0] = self
        return r

    flatten = ravel

    def reshape(self, *shape):
        return self.ravel().reshape(*shape)

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(float)

    def __getitem__(self, k):
        import numpy
        if isinstance(k, tuple) and k == ():
            return self
        a = numpy.empty((), dtype=object)
        a[()] = self
        return a[k]

    def astype(self, t):
        return self


def _isnp(o):
    return type(o).__module__ == "numpy"


def same(a, b):
    """equal as rational functions under the current rules"""
    if isinstance(a, Sym) and isinstance(b, Sym):
        R = CTX.ring
        if a.num == b.num and a.den == b.den:
            return True
        if len(a.num) > 300 or len(b.num) > 300:
            return False
        d = Sym(a.num, a.den) - Sym(b.num, b.den)
        return not R.reduce(d.num)
    return type(a) is type(b) and a == b


def plain(x):
    """Python-float flavoured copy"""
    if isinstance(x, Sym):
        r = Sym(x.num, x.den)
        r.nn = x.nn
        return r
    return x


def npy(x):
    if isinstance(x, Sym):
        if x.np_like:
            return x
        r = NSym(x.num, x.den)
        r.nn = x.nn
        return r
    return x


def _scale_to(num, den, target):
    R = CTX.ring
    for k, e in target.items():
        d = e - den.get(k, 0)
        if d > 0:
            num = R.mul(num, R.pow(CTX.factors[k], d))
    return num


def _simplify(num, den):
    if not num:
        return {}, {}
    if not den:
        return num, den
    den = dict(den)
    mono = None
    for k in list(den):
        f = CTX.factors[k]
        e = den[k]
        if len(f) == 1:  # single variable
            (m,) = f
            v = m[0][0]
            ru = CTX.ring.rules.get(v)
            if ru and ru[0] == 2 and e >= 2 and len(ru[1]) == 1 and ONE in ru[1]:
                # v*v is a constant
                c = ru[1][ONE]
                while e >= 2:
                    num = CTX.ring.scale(num, Fr(1) / c)
                    e -= 2
                if e:
                    den[k] = e
                else:
                    del den[k]
                    continue
            if mono is None:
                mono = dict(content_mono(num))
            t = min(e, mono.get(v, 0))
            if t:
                num = div_mono(num, ((v, t),))
                mono[v] -= t
                if t == e:
                    del den[k]
                else:
                    den[k] = e - t
        else:
            while den.get(k, 0):
                q = _exact_div(num, f)
                if q is None:
                    break
                num = q
                mono = None
                if den[k] == 1:
                    del den[k]
                else:
                    den[k] -= 1
    return num, den


def _exact_div(p, f, limit=60):
    """p / f if exact (plain polynomial division, lexicographic on reversed monomials), else None"""
    if len(f) > len(p) or len(p) > 4000:
        return None
    lead = _lead(f)
    lc = f[lead]
    q = {}
    r = dict(p)
    steps = 0
    ld = dict(lead)
    maxsteps = len(p) + 20
    while r:
        steps += 1
        if steps > maxsteps:
            return None
        m = _lead(r)
        md = dict(m)
        for v, e in ld.items():
            if md.get(v, 0) < e:
                return None
        qm = tuple(sorted((v, e - ld.get(v, 0)) for v, e in md.items() if e - ld.get(v, 0)))
        qc = Fr(r[m]) / lc
        if qc.denominator == 1:
            qc = qc.numerator
        q[qm] = qc
        for fm, fc in f.items():
            mm = Ring.mmul(qm, fm)
            n = r.get(mm, 0) - qc * fc
            if n:
                r[mm] = n
            else:
                r.pop(mm, None)
    return q


def _lead(p):
    return lead_mono(p)


def CTX_factor_den(p):
    """split a denominator polynomial into (const, [(primitive poly, exp)])"""
    fs = CTX.cache.get(("fac", pkey(p)))
    if fs is None:
        fs = (1, [(p, 1)])
        if 2 <= len(p) <= 24 and len(pvars(p)) <= 6:
            fs = factor_poly(p)
        CTX.cache[("fac", pkey(p))] = fs
    return fs


def factor_poly(p):
    """-> (const, [(primitive poly, exp)]) by sympy over Q"""
    key = ("factor", pkey(p))
    if key in CTX.cache:
        return CTX.cache[key]
    import sympy
    vs = sorted(pvars(p))
    gens = [sympy.Symbol(f"v{v}") for v in vs]
    ix = {v: i for i, v in enumerate(vs)}
    d = {}
    for m, c in p.items():
        e = [0] * len(vs)
        for v, k in m:
            e[ix[v]] = k
        c = Fr(c)
        d[tuple(e)] = sympy.Rational(c.numerator, c.denominator)
    P = sympy.Poly(d, *gens, domain="QQ")
    c0, fl = P.factor_list()
    out = []
    const = Fr(int(c0.p), int(c0.q))
    for f, e in fl:
        q = {}
        for mon, c in f.terms():
            m = tuple((vs[i], k) for i, k in enumerate(mon) if k)
            q[m] = Fr(int(c.p), int(c.q))
        cc, q = primitive(q)
        const *= Fr(cc) ** e
        out.append((q, e))
    CTX.cache[key] = (const, out)
    return const, out


def _mul_inf(s, q):
    if q != q:
        return q
    if decide(s, "=="):
        return float("nan")
    if decide(s, ">"):
        return q
    return -q


def div_by_zero(x, np_like):
    ex = CTX.explorer
    if not np_like:
        raise ZeroDivisionError("float division by zero")
    CTX.np_warning("divide by zero encountered")
    if decide(x, "=="):
        return float("nan")
    return INF if decide(x, ">") else -INF


# ---------------------------------------------------------------------------
def multiple(s, c, n):
    """sin, cos of n*theta"""
    if n < 0:
        a, b = multiple(s, c, -n)
        return -a, b
    rs, rc = Sym.const(0), Sym.const(1)
    bs, bc = s, c
    while n:
        if n & 1:
            rs, rc = rs * bc + rc * bs, rc * bc - rs * bs
        n >>= 1
        if n:
            bs, bc = 2 * bs * bc, 2 * bc * bc - 1
    return rs, rc


def R_scale(p, c):
    return CTX.ring.scale(p, c)


def sincos(x):
    x = Sym.lift(x)
    if isinstance(x, float):
        CTX.np_warning("invalid value")
        return float("nan"), float("nan")
    key = None
    p = CTX.ring.reduce(x.num)
    if x.den:
        a = Sym(p, x.den)
        t = CTX.find("sincosden", (a,))
        if t is None:
            t = CTX.keep("sincosden", (a,), opaque("ang", a))
        p = t.num
    rs, rc = Sym.const(0), Sym.const(1)
    pv = CTX._pi
    if CTX.opaque_trig:
        rest, w = {}, 0
        for m, q in p.items():
            if pv is not None and m == ((pv, 1),):
                w = Fr(q)
            elif len(m) == 2 and Fr(q).denominator == 1 and q % 2 == 0 and any(v == pv and e == 1 for v, e in m) and \
                    any(e == 1 and CTX.vars[v].kind == "int" for v, e in m):
                pass                      # a whole number of turns
            else:
                rest[m] = q
        if rest:
            c, q = primitive(rest)
            sg = 1 if c > 0 else -1
            frac = (sg * w) % Fr(1, 2)
            a = Sym(R_scale(q, abs(c))) + (CTX.pi() * frac if frac else 0)
            t = CTX.find("sincosop", (a,))
            if t is None:
                t = CTX.keep("sincosop", (a,), opaque("ang", a))
            p = R_scale(t.num, sg)
            w = w - sg * frac
        else:
            p = {}
        if w:
            p = dict(p)
            p[((pv, 1),)] = w
    # make all bases first so that rules are settled
    for m, q in p.items():
        if pv is not None and m == ((pv, 1),):
            continue
        CTX.base(m, Fr(q).denominator)
    p = CTX.ring.reduce(p)
    for m, q in p.items():
        q = Fr(q)
        if pv is not None and m == ((pv, 1),):
            s, c = pi_multiple(q)
        else:
            b = CTX.base(m, q.denominator)
            s, c = multiple(b["s"], b["c"], int(q * b["D"]))
        rs, rc = rs * c + rc * s, rc * c - rs * s
    return rs, rc


def pi_multiple(q):
    q = q % 2
    tab = {0: (0, 1), 1: (1, 0), 2: (0, -1), 3: (-1, 0)}
    if (q * 2).denominator == 1:
        s, c = tab[int(q * 2) % 4]
        return Sym.const(s), Sym.const(c)
    if q > 1:
        s, c = pi_multiple(q - 1)
        return -s, -c
    if q > Fr(1, 2):
        s, c = pi_multiple(q - Fr(1, 2))
        return c, -s
    if q > Fr(1, 4):
        s, c = pi_multiple(Fr(1, 2) - q)
        return c, s
    if q == Fr(1, 4):
        r = ssqrt(Sym.const(Fr(1, 2)))
        return r, r
    if q == Fr(1, 6):
        return Sym.const(Fr(1, 2)), ssqrt(Sym.const(Fr(3, 4)))
    b = CTX.base(((CTX._pi, 1),), q.denominator)
    return multiple(b["s"], b["c"], int(q * b["D"]))


def opaque(name, s, lo=-INF, hi=INF):
    """variable equal to the Sym s"""
    CTX.fresh += 1
    v = CTX.newvar(f"{name}#{CTX.fresh}", "opaque", lambda ev, s=s: ev.rat(s), lo=lo, hi=hi)
    CTX.vars[v].cons = [lambda e, v=v, s=s: e.define(v, s)]
    CTX.vars[v].deps = (s.num,)
    return CTX.sym(v)


def rational_root(c, n):
    c = Fr(c)
    if c < 0:
        return None

    def r(k):
        x = round(k ** (1.0 / n)) if k < 10 ** 300 else None
        if x is None:
            return None
        for y in (x - 1, x, x + 1):
            if y >= 0 and y ** n == k:
                return y
        return None
    a, b = r(c.numerator), r(c.denominator)
    return Fr(a, b) if a is not None and b is not None else None


def ssqrt(x, nonneg=False):
    """square root of a Sym known (or decided) to be >= 0"""
    x = Sym.lift(x)
    if isinstance(x, float):
        return x if x > 0 else float("nan")
    if not x.num:
        return Sym.const(0)
    r = _ssqrt(x)
    if r.isconst or r.nn is False:
        r = Sym(r.num, r.den)
        r.nn = True
    return r


def _ssqrt(x):
    # numerator over even powers of denominators
    den = {}
    num = CTX.ring.reduce(x.num)
    for k, e in x.den.items():
        if e % 2:
            num = CTX.ring.mul(num, CTX.factors[k])
            e += 1
        den[k] = e // 2
    r = _sqrt_poly(num)
    if den:
        d = Sym.const(1)
        ok = {}
        for k, e in den.items():
            f = CTX.factors[k]
            sg = CTX.interval_sign(f)
            if sg in ("+", "+0") or e % 2 == 0:
                ok[k] = e
            elif sg in ("-", "-0"):
                ok[k] = e
                r = -r if e % 2 else r
            else:
                if decide(Sym(f), ">"):
                    ok[k] = e
                else:
                    ok[k] = e
                    r = -r
        n, dd = r.num, dict(r.den)
        for k, e in ok.items():
            dd[k] = dd.get(k, 0) + e
        r = Sym(*_simplify(n, dd))
    return r


def _sqrt_poly(p):
    if not p:
        return Sym.const(0)
    c, q = primitive(p)
    if c < 0:
        c, q = -c, CTX.ring.scale(q, -1)
    # rational content: c = (num/den) -> pull out the square part
    out = Sym.const(1)
    rest = {ONE: 1}
    mono = content_mono(q)
    fl = []
    if mono:
        q = div_mono(q, mono)
        for v, e in mono:
            fl.append(({((v, 1),): 1}, e))
    if not is_const(q):
        if len(q) <= 40 and len(pvars(q)) <= 8:
            cc, f2 = factor_poly(q)
            c = c * cc
            fl.extend(f2)
        else:
            fl.append((q, 1))
    else:
        c = c * const_val(q)
    if c < 0:
        # move the sign into an odd factor
        for i, (f, e) in enumerate(fl):
            if e % 2:
                fl[i] = (CTX.ring.scale(f, -1), e)
                c = -c
                break
    # 1 - cos^2 -> sin^2
    merged = {}
    for f, e in fl:
        merged[pkey(f)] = merged.get(pkey(f), 0) + e
    for mono_, b in list(CTX.atoms.items()):
        if b.get("vars"):
            s, cv = b["vars"]
            f1 = {((cv, 1),): 1, ONE: -1}
            f2 = {((cv, 1),): 1, ONE: 1}
            k1, k2 = pkey(f1), pkey(f2)
            n1 = pkey(CTX.ring.scale(f1, -1))
            for ka, sgn in ((k1, -1), (n1, 1)):
                while merged.get(ka, 0) % 2 and merged.get(k2, 0) % 2:
                    merged[ka] -= 1
                    merged[k2] -= 1
                    ks = pkey({((s, 1),): 1})
                    merged[ks] = merged.get(ks, 0) + 2
                    c = c * sgn
    restf = {ONE: 1}
    for k, e in merged.items():
        if not e:
            continue
        f = dict(k)
        if e >= 2:
            h = Sym(f)
            if (e // 2) % 2:
                h = abs(h)
                h = Sym(h.num, h.den)
            for _ in range(e // 2):
                out = out * h
        if e % 2:
            restf = CTX.ring.mul(restf, f)
    # constant part
    if c < 0:
        c = -c
        restf = CTX.ring.scale(restf, -1)
    rr = rational_root(c, 2)
    if is_const(restf) and const_val(restf) == 1:
        if rr is not None:
            return out * Sym.const(rr)
        c = Fr(c)
        n = c.numerator * c.denominator
        sq = 1
        d = 2
        m = n
        while d * d <= m and d < 2000:
            while m % (d * d) == 0:
                m //= d * d
                sq *= d
            d += 1
        return out * Sym.const(Fr(sq, c.denominator)) * _sqrt_var({ONE: m})
    # keep radicand primitive, constant outside when square, else inside
    if rr is not None:
        return out * Sym.const(rr) * _sqrt_var(restf)
    return out * _sqrt_var(CTX.ring.scale(restf, c))


def _sqrt_var(p):
    key = ("sqrt", pkey(p))
    v = CTX.cache.get(key)
    if v is None:
        sg = CTX.interval_sign(p)
        CTX.fresh += 1
        v = CTX.newvar(f"sqrt#{CTX.fresh}", "sqrt", lambda ev, p=p: ev.M.sqrt(max(0, ev.poly(p))), lo=0.0)
        if is_const(p):
            r = math.sqrt(float(const_val(p)))
            CTX.vars[v].lo, CTX.vars[v].hi = r * (1 - 1e-15), r * (1 + 1e-15)
        CTX.vars[v].deps = (p,)
        CTX.vars[v].cons = [lambda e, v=v, p=p: e.root(v, p, 2)]
        CTX.ring.set_rule(v, 2, p)
        CTX.cache[key] = v
    return CTX.sym(v)


def scbrt(x):
    x = Sym.lift(x)
    if isinstance(x, float):
        return x
    if not x.num:
        return Sym.const(0)
    if decide(x, "<"):
        return -scbrt(-x)
    num = CTX.ring.reduce(x.num)
    den = {}
    for k, e in x.den.items():
        while e % 3:
            num = CTX.ring.mul(num, CTX.factors[k])
            e += 1
        den[k] = e // 3
    c, q = primitive(num)
    rr = rational_root(c, 3)
    if rr is None:
        q = num
        rr = 1
    mono = content_mono(q)
    out = Sym.const(rr)
    keep = []
    if mono:
        q = div_mono(q, mono)
        for v, e in mono:
            if e // 3:
                out = out * CTX.sym(v) ** (e // 3)
            if e % 3:
                keep.append((v, e % 3))
    fl = []
    if not is_const(q) and len(q) <= 30:
        cc, fl = factor_poly(q)
        q = {ONE: cc} if cc != 1 else {ONE: 1}
        for f, e in fl:
            for _ in range(e // 3):
                out = out * Sym(f)
            if e % 3:
                q = CTX.ring.mul(q, CTX.ring.pow(f, e % 3))
    if keep:
        q = CTX.ring.mul(q, {tuple(sorted(keep)): 1})
    if not (is_const(q) and const_val(q) == 1):
        key = ("cbrt", pkey(q))
        v = CTX.cache.get(key)
        if v is None:
            CTX.fresh += 1

            def num_(ev, p=q):
                t = ev.poly(p)
                return (t ** (ev.M.mpf(1) / 3) if t >= 0 else -((-t) ** (ev.M.mpf(1) / 3))) if ev.M is not math else math.copysign(abs(t) ** (1 / 3), t)
            v = CTX.newvar(f"cbrt#{CTX.fresh}", "cbrt", num_)
            if CTX.interval_sign(q) in ("+", "+0"):
                CTX.vars[v].lo = 0.0
            CTX.vars[v].deps = (q,)
            CTX.vars[v].cons = [lambda e, v=v, p=q: e.root(v, p, 3)]
            CTX.ring.set_rule(v, 3, q)
            CTX.cache[key] = v
        out = out * CTX.sym(v)
    n, d = out.num, dict(out.den)
    for k, e in den.items():
        d[k] = d.get(k, 0) + e
    return Sym(*_simplify(n, d))


def spow(b, n):
    np_like = getattr(b, "np_like", False) or getattr(n, "np_like", False) or _isnp(b)
    if isinstance(n, Sym):
        if n.isconst:
            n = n.constval()
        else:
            b = Sym.lift(b)
            if isinstance(b, float):
                raise Unsupported("symbolic exponent of a special value")
            if decide(b, "<"):
                raise Unsupported("negative base with symbolic exponent")
            if decide(b, "=="):
                if not decide(n, ">"):
                    raise Unsupported("zero to a power that is not positive")
                out = Sym.const(0)
            else:
                out = uf("exp", plain(n) * uf("log", plain(b), lambda v, M: M.log(v)), lambda v, M: M.exp(v))
            return npy(out) if np_like else plain(out)
    r = rationalise(n)
    if isinstance(r, (Sym, float)):
        raise Unsupported("exponent")
    b = Sym.lift(b)
    if isinstance(b, float):
        return b ** float(r)
    r = Fr(r)
    if r.denominator == 1:
        k = int(r)
        if k >= 0:
            if not b.den:
                out = Sym(CTX.ring.pow(b.num, k))
            else:
                out = Sym(CTX.ring.pow(b.num, k), {d: e * k for d, e in b.den.items()} if k else {})
        else:
            out = 1 / (spow(b, -k) if not np_like else npy(spow(b, -k)))
            if isinstance(out, float):
                return out
    elif r.denominator == 2:
        if decide(b, "<"):
            raise Unsupported("negative base with fractional power")
        out = spow(ssqrt(b), abs(r.numerator))
        out = out if r > 0 else 1 / out
    elif r.denominator == 3:
        if decide(b, "<"):
            raise Unsupported("negative base with fractional power")
        out = spow(scbrt(b), abs(r.numerator))
        out = out if r > 0 else 1 / out
    else:
        raise Unsupported(f"power {r}")
    return npy(out) if np_like else plain(out)


def smod(x, m):
    """x % m with Python semantics, m > 0 constant (a number or multiple of pi)"""
    np_like = getattr(x, "np_like", False) or getattr(m, "np_like", False) or _isnp(x) or _isnp(m)
    x = Sym.lift(x)
    m = Sym.lift(m)
    if isinstance(x, float):
        return float("nan")
    if isinstance(m, float):
        raise Unsupported("mod inf")
    sg = CTX.interval_sign(m.num)
    if sg != "+":
        if not decide(m, ">"):
            raise Unsupported("modulus not positive")
    if x.isconst and m.isconst:
        out = Sym.const(Fr(x.constval()) % Fr(m.constval()))
        return npy(out) if np_like else out
    key = ("mod", pkey(x.num), tuple(sorted(x.den.items())), pkey(m.num), tuple(sorted(m.den.items())))
    r = CTX.cache.get(key)
    if r is None:
        # angle modulo a full turn keeps sine and cosine
        turn = m / (2 * CTX.pi())
        d = x * 180 / 180
        if CTX.opaque_trig:
            pass                      # sums stay whole; the number of turns is split off by sincos
        elif turn.isconst and turn.constval() == 1 and not x.den:
            r = _mod_angle(x, m)
        elif m.isconst and m.constval() == 360 and CTX._pi is not None:
            xr = x * CTX.pi() / 180
            if not xr.den and not is_const(xr.num):
                r = _mod_angle(xr, 2 * CTX.pi()) * 180 / CTX.pi()
        if r is None:
            k = intvar(x / m, "floor")
            r = x - m * k
        CTX.cache[key] = r
    return npy(r) if np_like else plain(r)


def _mod_angle(x, m):
    s, c = sincos(x)
    k = intvar(x / m, "floor")

    def num(ev, x=x):
        t = ev.rat(x)
        tp = 2 * ev.M.pi
        r = t - tp * ev.M.floor(t / tp)
        return r
    kv = next(iter(pvars(k.num)), None)

    def extra(e, x=x, k=k):
        return None
    v = CTX.angle_value("turn", s, c, num, 0, 2)
    vi = next(iter(pvars(v.num)))
    CTX.vars[vi].cons.append(lambda e, vi=vi, x=x, k=k, m=m: e.define(vi, x - m * k))
    CTX.vars[vi].deps = tuple(CTX.vars[vi].deps) + (x.num, k.num)
    CTX.vars[vi].data = (s, c, 0, 2, "open")
    return v


def intvar(q, how):
    """integer k = floor(q)"""
    key = ("floor", pkey(q.num), tuple(sorted(q.den.items())))
    k = CTX.cache.get(key)
    if k is None:
        if q.isconst:
            k = Sym.const(math.floor(Fr(q.constval())))
        else:
            CTX.fresh += 1
            v = CTX.newvar(f"floor#{CTX.fresh}", "int", lambda ev, q=q: ev.M.floor(ev.rat(q)))
            CTX.vars[v].cons = [lambda e, v=v, q=q: e.floor(v, q)]
            CTX.vars[v].deps = (q.num,)
            k = CTX.sym(v)
        CTX.cache[key] = k
    return k


def sfloor(x):
    x = Sym.lift(x)
    return intvar(x, "floor")


def strunc(x):
    x = Sym.lift(x)
    if decide(x, ">="):
        return intvar(x, "floor")
    return -intvar(-x, "floor")


def satan2(y, x):
    y, x = Sym.lift(y), Sym.lift(x)
    pi = CTX.pi()
    if isinstance(y, float) or isinstance(x, float):
        if y != y or x != x:
            return float("nan")
        if isinstance(x, float) and not isinstance(y, float):
            if x > 0:
                return Sym.const(0)
            return pi if decide(y, ">=") else -pi
        if isinstance(y, float) and not isinstance(x, float):
            return pi / 2 if y > 0 else -pi / 2
        raise Unsupported("atan2(inf, inf)")
    r = CTX.find("atan2", (y, x))
    if r is not None:
        return r
    h = ssqrt(y * y + x * x)
    if decide(h, "=="):
        r = Sym.const(0)   # sign of zero is not modelled
        for t in (y, x):   # a sum of squares that vanishes
            if CTX.ring.reduce(t.num) and not t.isconst:
                CTX.assume_cond(t, "==")
    elif not CTX.ring.reduce(y.num):
        r = Sym.const(0) if decide(x, ">") else pi
    elif not CTX.ring.reduce(x.num):
        r = pi / 2 if decide(y, ">") else -pi / 2
    else:
        s, c = _div(y, h), _div(x, h)
        lo = 0 if CTX.interval_sign(y.sign_poly()) in ("+", "+0") else -1
        lo2, hi2 = lo, 1
        if CTX.interval_sign(x.sign_poly()) in ("+", "+0"):
            lo2, hi2 = max(lo, Fr(-1, 2)), Fr(1, 2)
        r = CTX.angle_value("atan2", s, c, lambda ev, y=y, x=x: ev.M.atan2(ev.rat(y), ev.rat(x)), lo2, hi2)
    return CTX.keep("atan2", (y, x), r)


def _div(y, h):
    n, d = h.inverse()
    return y * Sym(n, d)


def sasin(w, acos=False):
    w = Sym.lift(w)
    if isinstance(w, float):
        return float("nan")
    key = "acos" if acos else "asin"
    r = CTX.find(key, (w,))
    if r is not None:
        return r
    if decide(w - 1, ">") or decide(w + 1, "<"):
        return None
    c = ssqrt(1 - w * w)
    pi = CTX.pi()
    if acos:
        lo, hi = 0, 1
        if CTX.interval_sign(w.sign_poly()) in ("+", "+0"):
            hi = Fr(1, 2)
        r = CTX.angle_value("acos", c, w, lambda ev, w=w: ev.M.acos(_clamp(ev.rat(w))), lo, hi)
    else:
        lo, hi = Fr(-1, 2), Fr(1, 2)
        if CTX.interval_sign(w.sign_poly()) in ("+", "+0"):
            lo = 0
        r = CTX.angle_value("asin", w, c, lambda ev, w=w: ev.M.asin(_clamp(ev.rat(w))), lo, hi)
    return CTX.keep(key, (w,), r)


def _clamp(x):
    return 1 if x > 1 else -1 if x < -1 else x


def satan(w):
    w = Sym.lift(w)
    pi = CTX.pi()
    if isinstance(w, float):
        return w if w != w else (pi / 2 if w > 0 else -pi / 2)
    r = CTX.find("atan", (w,))
    if r is not None:
        return r
    # w = n/d : sin = n/hyp, cos = d/hyp with d > 0
    if not CTX.ring.reduce(w.num):
        r = Sym.const(0)
    else:
        d = Sym.const(1)
        for k, e in w.den.items():
            d = d * Sym(CTX.ring.pow(CTX.factors[k], e))
        n = Sym(w.num)
        if not decide(d, ">"):
            d, n = -d, -n
        h = ssqrt(n * n + d * d)
        s, c = _div(n, h), _div(d, h)
        lo, hi = Fr(-1, 2), Fr(1, 2)
        if CTX.interval_sign(n.num) in ("+", "+0"):
            lo = 0
        r = CTX.angle_value("atan", s, c, lambda ev, w=w: ev.M.atan(ev.rat(w)), lo, hi)
    return CTX.keep("atan", (w,), r)


def stan(x, np_like):
    s, c = sincos(x)
    if isinstance(s, float):
        return s
    if decide(c, "=="):
        # the float nearest to an odd multiple of pi/2 has a huge finite tangent of the sign of sine
        return INF if decide(s, ">") else -INF
    return _div(s, c)


# ---------------------------------------------------------------------------
def known_sign(p):
    """sign of p decided earlier on this path (or by assumption): 1, -1 or None"""
    c, q = primitive(p)
    k = pkey(q)
    for cond, op in list(CTX.path) + CTX.assume:
        if not cond:
            continue
        c2, q2 = primitive(cond)
        if op in (">", ">=") and pkey(q2) == k:
            return (1 if c2 > 0 else -1) * (1 if c > 0 else -1)
    return None


def decide(s, op):
    """truth of  s op 0  on the current path (forks when both are possible)"""
    s = Sym.lift(s)
    if isinstance(s, float):
        if s != s:
            return False
        return {">": s > 0, ">=": s >= 0, "<": s < 0, "==": s == 0}[op]
    if op == "<":
        return not decide(s, ">=")
    R = CTX.ring
    num = R.reduce(s.num)
    if not num:
        return op in (">=", "==")
    if s.nn:
        CTX.fact(s)
        if op == ">=":
            return True
        if op == ">":
            return not decide(Sym(s.num, s.den), "==")
    if is_const(num) and op == "==":
        return False
    if op == "==":
        p = num
        mono = content_mono(p)
    else:
        p = R.reduce(Sym(num, s.den).sign_poly())
    sg = CTX.interval_sign(p)
    if op == "==" and sg in ("+", "-"):
        return False
    if op == ">" and sg in ("+",):
        return True
    if op == ">" and sg in ("-", "-0"):
        return False
    if op == ">=" and sg in ("+", "+0"):
        return True
    if op == ">=" and sg == "-":
        return False
    c, q = primitive(p)
    # product: decide equality factor by factor on monomial content
    if op == "==":
        mono = content_mono(q)
        if mono and len(q) > 0 and (len(mono) > 1 or len(q) > 1):
            for v, e in mono:
                if decide(Sym({((v, 1),): 1}), "=="):
                    return True
            q = div_mono(q, mono)
            if is_const(q):
                return False
    # drop positive even/positive monomial content for order decisions
    if op in (">", ">="):
        mono = content_mono(q)
        if mono:
            keep = []
            for v, e in mono:
                i = CTX.vars[v]
                if i.lo > 0 or (i.lo >= 0 and nonzero_var(v)):
                    continue
                keep.append((v, e))
            if len(keep) != len(mono):
                drop = dict(mono)
                for v, e in keep:
                    drop.pop(v)
                q = div_mono(q, tuple(sorted(drop.items())))
    if c < 0 and op in (">", ">="):
        q = R.scale(q, -1)
    if is_const(q):
        v = const_val(q)
        return {">": v > 0, ">=": v >= 0, "==": v == 0}[op]
    if len(q) == 1 and op in ("==", ">"):
        (m, c1), = q.items()
        if len(m) == 1 and m[0][1] == 1 and CTX.vars[m[0][0]].kind == "sqrt" and c1 > 0 and CTX.explorer.lookup(q, op) is None:
            r = decide(Sym(CTX.vars[m[0][0]].deps[0]), "==")
            v = r if op == "==" else not r
            if CTX.explorer.lookup(q, op) is None:
                CTX.explorer.record(q, op, v)
                if op == ">":
                    CTX.pathkeys[(pkey(q), "==")] = r
            return v
    return CTX.explorer.decide(q, op)


def strip_pos(p):
    """drop the common monomial factor that is known to be positive"""
    if len(p) < 2:
        return p
    mono = content_mono(p)
    drop = tuple((v, e) for v, e in mono or () if CTX.vars[v].lo > 0 or (CTX.vars[v].lo >= 0 and (CTX.vars[v].data == "pos" or nonzero_var(v))))
    return div_mono(p, drop) if drop else p


def nonzero_var(v):
    k = pkey({((v, 1),): 1})
    return CTX.pathkeys.get((k, "==")) is False or CTX.pathkeys.get((k, ">")) is True


def show(s, limit=6):
    def mono(m):
        return "*".join(CTX.ring.names[v] + (f"^{e}" if e > 1 else "") for v, e in m) or "1"
    t = []
    for i, (m, c) in enumerate(s.num.items()):
        if i >= limit:
            t.append(f"...({len(s.num)} terms)")
            break
        t.append(f"{c}*{mono(m)}" if m else f"{c}")
    out = " + ".join(t) or "0"
    if s.den:
        out = f"({out})/(" + "*".join(f"[{show(Sym(CTX.factors[k]), 3)}]^{e}" for k, e in s.den.items()) + ")"
    return out


ODD = {"asinh", "atanh", "sinh", "tanh", "erf"}


def uf(name, x, fnum):
    """function the encoding treats as uninterpreted (congruence and oddness only)"""
    x = Sym.lift(x)
    if isinstance(x, float):
        return fnum(x, math)
    num = CTX.ring.reduce(x.num)
    if not num and name in ODD:
        return Sym.const(0)
    if not num and name == "exp":
        return Sym.const(1)
    sgn = 1
    if name in ODD and num[lead_mono(num)] < 0:
        sgn = -1
        num = CTX.ring.scale(num, -1)
    y = Sym(num, x.den)
    v = CTX.find("uf" + name, (y,))
    if v is None:
        CTX.fresh += 1
        v = CTX.newvar(f"{name}#{CTX.fresh}", "uf", lambda ev, y=y: fnum(ev.rat(y), ev.M))
        CTX.vars[v].deps = (num,)
        if name == "exp":
            CTX.vars[v].lo = 0.0
            CTX.vars[v].data = "pos"
        CTX.vars[v].cons = [lambda e, v=v, y=y: e.uf(v, name, y)]
        CTX.keep("uf" + name, (y,), v)
    r = CTX.sym(v)
    return -r if sgn < 0 else r


def congruent(name, i, args, np_like, deg):
    """output i of an uninterpreted function of the argument list (Syms and constants)"""
    v = CTX.find(("congr", name, i), args)
    if v is None:
        CTX.fresh += 1
        syms = [a for a in args if isinstance(a, Sym)]
        import zlib
        tag = zlib.crc32(repr([a[1] for a in args if not isinstance(a, Sym) and a[0] == "c"]).encode()) % 1009

        def num(ev, syms=syms, i=i, tag=tag):
            # any deterministic function of the arguments will do
            t = ev.M.mpf(1) if ev.M is not math else 1.0
            for j, s in enumerate(syms):
                x = ev.rat(s)
                t = t + ev.M.atan(x * (1e-6 if abs(x) > 100 else 1)) * (j + 1 + 0.37 * i) / (j + 2) + x * 1e-9
            return t + tag
        v = CTX.newvar(f"{name}[{i}]#{CTX.fresh}", "uf", num)
        CTX.vars[v].deps = tuple(a.num for a in syms)
        CTX.keep(("congr", name, i), args, v)
    r = CTX.sym(v)
    if deg:
        r = r * 180 / CTX.pi()
    return npy(r) if np_like else plain(r)

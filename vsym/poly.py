"""Sparse multivariate polynomials over Q with rewrite rules, and fractions with factored denominators.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of (var, exp) pairs.
Variables are small integers; `rules[var] = (k, poly)` rewrites var**k to poly (poly only mentions
variables that were created earlier or have no rule leading back, so rewriting terminates).
"""
from fractions import Fraction

ONE = ()


def _num(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Ring:
    """variable table and rewrite rules of one symbolic run"""

    def __init__(self):
        self.names = []
        self.rules = {}
        self.version = 0
        self._pw = {}

    def new(self, name):
        self.names.append(name)
        return len(self.names) - 1

    def set_rule(self, var, k, poly):
        self.rules[var] = (k, poly)
        self.version += 1
        self._pw.clear()

    # ---- basic operations -------------------------------------------------
    @staticmethod
    def const(c):
        c = _num(c)
        return {ONE: c} if c else {}

    @staticmethod
    def var(v):
        return {((v, 1),): 1}

    @staticmethod
    def add(p, q, f=1):
        if not q:
            return p
        r = dict(p)
        for m, c in q.items():
            n = r.get(m, 0) + (c if f == 1 else c * f)
            if n:
                r[m] = _num(n)
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def scale(p, f):
        if f == 1:
            return p
        if not f:
            return {}
        return {m: _num(c * f) for m, c in p.items()}

    @staticmethod
    def mmul(m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        out = []
        i = j = 0
        n1, n2 = len(m1), len(m2)
        while i < n1 and j < n2:
            a, b = m1[i], m2[j]
            if a[0] == b[0]:
                out.append((a[0], a[1] + b[1]))
                i += 1
                j += 1
            elif a[0] < b[0]:
                out.append(a)
                i += 1
            else:
                out.append(b)
                j += 1
        out.extend(m1[i:])
        out.extend(m2[j:])
        return tuple(out)

    def mul(self, p, q):
        if not p or not q:
            return {}
        if len(p) < len(q):
            p, q = q, p
        mm = self.mmul
        r = {}
        for m2, c2 in q.items():
            for m1, c1 in p.items():
                m = mm(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        return self.reduce({m: _num(c) for m, c in r.items() if c})

    def pow(self, p, n):
        r = {ONE: 1}
        b = p
        while n:
            if n & 1:
                r = self.mul(r, b)
            n >>= 1
            if n:
                b = self.mul(b, b)
        return r

    # ---- rewriting --------------------------------------------------------
    def _reducible(self, m):
        rules = self.rules
        for v, e in m:
            ru = rules.get(v)
            if ru is not None and e >= ru[0]:
                return True
        return False

    def _power(self, v, q):
        """rule(v) to the power q, reduced"""
        key = (v, q)
        r = self._pw.get(key)
        if r is None:
            r = self.pow(self.reduce(self.rules[v][1]), q)
            self._pw[key] = r
        return r

    def reduce(self, p):
        todo = [m for m in p if self._reducible(m)]
        if not todo:
            return p
        out = {m: c for m, c in p.items()}
        rules = self.rules
        for m in todo:
            c = out.pop(m)
            rest = []
            acc = {ONE: c}
            for v, e in m:
                ru = rules.get(v)
                if ru is not None and e >= ru[0]:
                    q, rem = divmod(e, ru[0])
                    if rem:
                        rest.append((v, rem))
                    acc = self.mul(acc, self._power(v, q))
                else:
                    rest.append((v, e))
            if rest:
                acc = self.mul(acc, {tuple(rest): 1})
            for mm, cc in acc.items():
                n = out.get(mm, 0) + cc
                if n:
                    out[mm] = _num(n)
                else:
                    out.pop(mm, None)
        if any(self._reducible(m) for m in out):
            return self.reduce(out)
        return out


def pvars(p):
    s = set()
    for m in p:
        for v, _ in m:
            s.add(v)
    return s


def pkey(p):
    return tuple(sorted(p.items()))


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def const_val(p):
    return p.get(ONE, 0) if p else 0


def content_mono(p):
    """largest monomial dividing p"""
    it = iter(p)
    try:
        first = dict(next(it))
    except StopIteration:
        return ONE
    for m in it:
        if not first:
            break
        d = dict(m)
        for v in list(first):
            e = d.get(v, 0)
            if e == 0:
                del first[v]
            elif e < first[v]:
                first[v] = e
    return tuple(sorted(first.items()))


def div_mono(p, mono):
    d = dict(mono)
    r = {}
    for m, c in p.items():
        out = []
        for v, e in m:
            e -= d.get(v, 0)
            if e:
                out.append((v, e))
        r[tuple(out)] = c
    return r


def lead_mono(p):
    """leading monomial, lexicographic with larger variable numbers first"""
    return max(p, key=lambda m: m[::-1])


def primitive(p):
    """p = c * q with q having coprime integer coefficients and positive leading coefficient"""
    from math import gcd
    den = 1
    for c in p.values():
        if type(c) is Fraction:
            den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in p.values():
        g = gcd(g, int(c * den))
    lead = p[lead_mono(p)]
    s = 1 if lead > 0 else -1
    f = Fraction(s * g, den)
    return _num(f), {m: _num(c / f) if type(c) is Fraction else _num(Fraction(c) / f) for m, c in p.items()}

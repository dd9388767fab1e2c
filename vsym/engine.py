"""Path exploration, SMT encoding and obligations for the exact (algebraic) engine."""
from __future__ import annotations
import math
import time
from fractions import Fraction as Fr

import z3

from . import term, shims
from .term import Context, Sym, NSym, set_ctx, Unsupported, decide, PI
from .poly import ONE, pkey, pvars, is_const, const_val, primitive


class PathAbort(BaseException):
    """this path is infeasible (or was cut)"""


class Budget(BaseException):
    pass


class Stats(dict):
    def inc(self, k, n=1):
        self[k] = self.get(k, 0) + n


class Encoder:
    """variables and constraints of one query for z3"""

    def __init__(self, cx):
        self.cx = cx
        self.z = {}
        self.cons = []
        self.done = set()

    def var(self, v):
        x = self.z.get(v)
        if x is None:
            i = self.cx.vars[v]
            nm = f"{i.name}!{v}"
            x = z3.ToReal(z3.Int(nm)) if i.kind == "int" else z3.Real(nm)
            self.z[v] = x
        return x

    def poly(self, p):
        ts = []
        for m, c in p.items():
            c = Fr(c)
            t = z3.RealVal(f"{c.numerator}/{c.denominator}") if c.denominator != 1 else z3.RealVal(c.numerator)
            fs = []
            for v, e in m:
                x = self.var(v)
                fs.extend([x] * e)
            if fs:
                prod = fs[0]
                for f in fs[1:]:
                    prod = prod * f
                t = prod if c == 1 else t * prod
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def need(self, p):
        """add definitions of the variables of p"""
        todo = list(pvars(p))
        while todo:
            v = todo.pop()
            if v in self.done:
                continue
            self.done.add(v)
            i = self.cx.vars[v]
            if i.kind in ("input", "angle"):
                pass
            if i.lo > -math.inf and i.kind in ("sqrt", "sin", "cos", "cbrt"):
                self.cons.append(self.var(v) >= z3.RealVal(_dec(i.lo)))
            if i.hi < math.inf and i.kind in ("sqrt", "sin", "cos"):
                self.cons.append(self.var(v) <= z3.RealVal(_dec(i.hi)))
            before = len(self.cons)
            for c in i.cons:
                c(self)
            for d in i.deps:
                todo.extend(pvars(d))
            for v2 in list(self.z):
                if v2 not in self.done:
                    todo.append(v2)

    def cond(self, p, op):
        e = self.poly(p)
        return {">": e > 0, ">=": e >= 0, "==": e == 0, "!=": e != 0, "<": e < 0, "<=": e <= 0}[op]

    # ---- definitions used by VarInfo.cons ---------------------------------
    def lin(self, name, lo, hi):
        x = self.var(self.cx._pi)
        self.cons += [x > z3.RealVal(lo), x < z3.RealVal(hi)]

    def unit(self, s, c):
        if ("u", s, c) in self.done:
            return
        self.done.add(("u", s, c))
        S, C = self.var(s), self.var(c)
        self.cons.append(S * S + C * C == 1)

    def triglemmas(self, s, c, mono, D):
        if ("t", s, c) in self.done:
            return
        self.done.add(("t", s, c))
        # only linear, range-based facts for atoms that are one variable
        if len(mono) != 1 or mono[0][1] != 1:
            if mono == () :
                # constant angle: numeric enclosure
                v = 1.0 / D
                self.cons += _enclose(self.var(s), math.sin(v)) + _enclose(self.var(c), math.cos(v))
            return
        v = mono[0][0]
        i = self.cx.vars[v]
        if v == self.cx._pi:
            t = math.pi / D
            self.cons += _enclose(self.var(s), math.sin(t)) + _enclose(self.var(c), math.cos(t))
            return
        self.range_lemmas(self.var(v) / D, i.lo / D, i.hi / D, self.var(s), self.var(c))

    def range_lemmas(self, A, lo, hi, S, C):
        eps = 1e-9
        if self.cx._pi is None:
            self.cx.pi()
        P = self.var(self.cx._pi)
        if self.cx._pi not in self.done:
            self.need({((self.cx._pi, 1),): 1})
        add = self.cons.append
        if lo >= -PI - eps and hi <= PI + eps:
            add(z3.Implies(A > 0, z3.Or(S > 0, A >= P)))
            add(z3.Implies(A < 0, z3.Or(S < 0, A <= -P)))
            add(z3.Implies(A == 0, z3.And(S == 0, C == 1)))
            add(z3.Implies(z3.And(A < P / 2, A > -P / 2), C > 0))
            add(z3.Implies(z3.Or(A > P / 2, A < -P / 2), C < 0))
            add(z3.Implies(A == P / 2, z3.And(S == 1, C == 0)))
            add(z3.Implies(A == -P / 2, z3.And(S == -1, C == 0)))
            add(z3.Implies(z3.Or(A == P, A == -P), z3.And(S == 0, C == -1)))
            add(z3.Implies(A >= 0, S <= A))
            add(z3.Implies(A <= 0, S >= A))
        elif lo >= -eps and hi <= 2 * PI + eps:
            add(z3.Implies(z3.And(A > 0, A < P), S > 0))
            add(z3.Implies(z3.And(A > P, A < 2 * P), S < 0))
            add(z3.Implies(z3.Or(A == 0, A == 2 * P), z3.And(S == 0, C == 1)))
            add(z3.Implies(A == P, z3.And(S == 0, C == -1)))
            add(z3.Implies(A == P / 2, z3.And(S == 1, C == 0)))
            add(z3.Implies(z3.And(A > P / 2, A < 3 * P / 2), C < 0))
            add(z3.Implies(z3.Or(A < P / 2, A > 3 * P / 2), C > 0))
            add(S <= A)

    def anglevar(self, v):
        i = self.cx.vars[v]
        s, c, lo, hi = i.data[:4]
        A = self.var(v)
        P = self.cx.pi()
        self.need(P.num)
        pz = self.var(self.cx._pi)
        f = lambda q: pz * z3.RealVal(f"{Fr(q).numerator}/{Fr(q).denominator}")
        self.cons.append(A >= f(lo))
        self.cons.append(A < f(hi) if len(i.data) > 4 else A <= f(hi))
        # name sine and cosine
        S, C = z3.Real(f"S!{v}"), z3.Real(f"C!{v}")
        self.cons.append(S * S + C * C == 1)
        for nm, r in ((S, s), (C, c)):
            self.need(r.num)
            den = self.den(r)
            self.cons.append(nm * den == self.poly(r.num))
        self.range_lemmas(A, float(lo) * PI, float(hi) * PI, S, C)

    def den(self, r):
        d = z3.RealVal(1)
        for k, e in r.den.items():
            f = self.cx.factors[k]
            self.need(f)
            fz = self.poly(f)
            if ("nz", k) not in self.done:
                self.done.add(("nz", k))
                self.cons.append(fz != 0)
            for _ in range(e):
                d = d * fz
        return d

    def define(self, v, s):
        s = Sym.lift(s)
        self.need(s.num)
        self.cons.append(self.var(v) * self.den(s) == self.poly(s.num))

    def root(self, v, p, n):
        self.need(p)
        x = self.var(v)
        if n == 2:
            self.cons.append(x >= 0)
            self.cons.append(x * x == self.poly(p))
        else:
            self.cons.append(x * x * x == self.poly(p))

    def uf(self, v, name, y):
        """elementary facts about a transcendental function of y"""
        X = z3.Real(f"arg!{v}")
        V = self.var(v)
        self.need(y.num)
        self.cons.append(X * self.den(y) == self.poly(y.num))
        add = self.cons.append
        if name == "exp":
            add(V > 0)
            add(V >= 1 + X)
            add(z3.Implies(X < 0, V < 1))
        elif name == "log":
            add(V <= X - 1)
            add(V * X >= X - 1)
            add(z3.Implies(X > 1, V > 0))
            add(z3.Implies(X < 1, V < 0))
            add(z3.Implies(X == 1, V == 0))
        elif name in ("asinh", "sinh", "atanh", "tanh"):
            add(z3.Implies(X > 0, V > 0))
            add(z3.Implies(X < 0, V < 0))
            add(z3.Implies(X == 0, V == 0))
            up = name in ("sinh", "atanh")
            add(z3.Implies(X >= 0, V >= X if up else V <= X))
            add(z3.Implies(X <= 0, V <= X if up else V >= X))
        elif name == "cosh":
            add(V >= 1)

    def floor(self, v, q):
        self.need(q.num)
        k = self.var(v)
        d = self.den(q)
        n = self.poly(q.num)
        # denominators of quotients are positive constants or powers of pi
        self.cons += [k * d <= n, n < (k + 1) * d]


def _dec(x):
    f = Fr(x)
    return f"{f.numerator}/{f.denominator}"


def _enclose(z, v):
    d = 1e-15
    return [z >= z3.RealVal(_dec(v - d)), z <= z3.RealVal(_dec(v + d))]


class Explorer:
    """runs fn(case) once per feasible path"""

    def __init__(self, name, numpy_mode=True, samples=(), seed=1, max_paths=3000, time_limit=300,
                 z3_feas_ms=700, z3_prove_ms=8000, nsamples=160):
        self.nsamples = nsamples
        self.name = name
        self.numpy_mode = numpy_mode
        self.samples = list(samples)
        self.seed = seed
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.feas_ms = z3_feas_ms
        self.prove_ms = z3_prove_ms
        self.stats = Stats()
        self.failures = []     # candidate counterexamples (obligation name, inputs list)
        self.unknown = []
        self.feas_cache = {}
        self.idx_cx = None
        self.paths_done = []
        self.witnesses = []

    # ---- driving ----------------------------------------------------------
    def run(self, fn):
        stack = [()]
        while stack:
            if time.time() > self.deadline:
                self.unknown.append((self.name, "time budget for path exploration exhausted"))
                break
            if self.stats.get("paths", 0) >= self.max_paths:
                self.unknown.append((self.name, "path budget exhausted"))
                break
            prefix = stack.pop()
            self.prefix = prefix
            self.taken = []
            self.pending = []
            cx = Context(self)
            cx.numpy_mode = self.numpy_mode
            cx.np_warning = shims.warning
            set_ctx(cx)
            self.cx = cx
            self.alive = None
            self.ob_here = 0
            try:
                try:
                    fn()
                except PathAbort:
                    raise
                except Unsupported as e:
                    self.undecided("not encodable", f"{e}")
                except Exception as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f for f in tb if "/pymap3d/" in f.filename]
                    if where or isinstance(e, (TypeError, ValueError, ArithmeticError, LookupError)):
                        self.claim(f"no exception expected, raised {type(e).__name__}: {e}"
                                   + (f" in {where[-1].name}" if where else f" at {tb[-1].filename}:{tb[-1].lineno}"), False)
                    else:
                        raise
                self.stats.inc("paths")
                self.note_path()
            except PathAbort:
                self.stats.inc("paths_cut")
            finally:
                set_ctx(None)
                shims.WSTACK.clear()
            for alt in self.pending:
                stack.append(alt)
            if len(self.failures) > 40:
                break
        return self

    def note_path(self):
        if len(self.paths_done) < 5:
            self.paths_done.append([f"{self.fmt(p)} {op} 0" for p, op in self.cx.path][:8])
        lv = self.live()
        if lv:
            self.stats.inc("paths_with_concrete_witness")
            for ev in lv[:8]:
                if ev.inputs.get("_rng") and len(self.witnesses) < 3000:
                    w = {k: v for k, v in ev.inputs.items() if k in self.cx.inputs}
                    if w not in self.witnesses:
                        self.witnesses.append(w)

    def fmt(self, p):
        return term.show(Sym(p), 4)

    # ---- numeric pool -----------------------------------------------------
    def ensure(self, name, d):
        """give every pooled sample a value of a newly declared input"""
        if not self.samples:
            self.samples = [dict(_rng=1) for _ in range(self.nsamples)]
        import random
        for i, s in enumerate(self.samples):
            if name in s:
                continue
            rng = random.Random(f"{self.seed}/{name}/{i}")
            if d["sample"] is not None:
                s[name] = d["sample"](rng, s)
                continue
            lo, hi = d["lo"], d["hi"]
            if d["kind"] == "angle":
                lo, hi = float(lo) * PI, float(hi) * PI
                if rng.random() < 0.12:
                    c = [x for x in (lo, hi, 0.0, PI / 2, -PI / 2, PI, -PI) if lo <= x <= hi]
                    s[name] = rng.choice(c)
                else:
                    s[name] = rng.uniform(lo, hi)
                continue
            if lo is not None and hi is not None and rng.random() < 0.6:
                s[name] = rng.uniform(float(lo), float(hi))
                continue
            if rng.random() < 0.08:
                x = 0.0
            else:
                x = 10 ** rng.uniform(-4, 8) * rng.choice((-1, 1))
            if lo is not None and x < lo:
                x = float(lo) if rng.random() < 0.3 else float(lo) + abs(x)
            if hi is not None and x > hi:
                x = float(hi) if lo is None or rng.random() < 0.3 else rng.uniform(float(lo), float(hi))
            s[name] = x

    def live(self):
        """samples (evaluators) that satisfy assumptions and path so far"""
        cx = self.cx
        if self.alive is None:
            self.alive = []
            for s in self.samples:
                if all(n in s for n in cx.inputs):
                    self.alive.append(cx.evaluator(s))
            self.ninputs = len(cx.inputs)
            self.upto = 0
            self.ass_upto = 0
        elif self.ninputs != len(cx.inputs):
            self.alive = None
            return self.live()
        conds = cx.assume[self.ass_upto:] + cx.path[self.upto:]
        if conds:
            self.ass_upto = len(cx.assume)
            self.upto = len(cx.path)
            self.alive = [ev for ev in self.alive if all(self.holds(ev, p, op) for p, op in conds)]
        return self.alive

    def value(self, ev, p):
        t = sc = 0.0
        try:
            for m, c in p.items():
                x = float(c) * ev.mono(m)
                t += x
                sc += abs(x)
        except (ArithmeticError, ValueError, TypeError):
            return float("nan"), 1.0
        return t, sc

    def holds(self, ev, p, op):
        t, sc = self.value(ev, p)
        if t != t:
            return False
        tol = 1e-12 * sc
        if op == ">":
            return t > tol
        if op == ">=":
            return t >= -tol
        if op == "==":
            return abs(t) <= tol
        return abs(t) > tol

    # ---- decisions --------------------------------------------------------
    def lookup(self, q, op):
        """answer implied by earlier decisions on the same polynomial (up to a constant), or None"""
        cx = self.cx
        r = cx.pathkeys.get((pkey(q), op))
        if r is not None:
            return r
        # bounds of the non-constant part
        if self.idx_cx is not cx:
            self.idx_cx, self.idx, self.idx_a, self.idx_p = cx, {}, 0, 0
        for p, o in cx.assume[self.idx_a:] + cx.path[self.idx_p:]:
            self.index(p, o)
        self.idx_a, self.idx_p = len(cx.assume), len(cx.path)
        body, f, c = self.body(q)
        b = self.idx.get(body)
        if b is None:
            return None
        # q = f * (body + c) with f != 0
        x = -c
        (lo, los), (hi, his), ne = b["lo"], b["hi"], b["ne"]
        above = lo is not None and (lo > x or (lo == x and los))        # body > x
        aboveq = lo is not None and lo >= x
        below = hi is not None and (hi < x or (hi == x and his))
        belowq = hi is not None and hi <= x
        if op == "==":
            if above or below or x in ne:
                return False
            return True if aboveq and belowq else None
        if f < 0:
            above, aboveq, below, belowq = below, belowq, above, aboveq
        if op == ">":
            if above or (aboveq and x in ne):
                return True
            return False if belowq else None
        if aboveq:
            return True
        return False if below or (belowq and x in ne) else None

    def body(self, q):
        c = q.get(ONE, 0)
        ms = [m for m in q if m != ONE]
        if not ms:
            return None, 1, 0
        f = Fr(q[min(ms)])
        return tuple(sorted((m, Fr(q[m]) / f) for m in ms)), f, Fr(c) / f

    def index(self, p, op):
        body, f, c = self.body(p)
        if body is None:
            return
        b = self.idx.setdefault(body, dict(lo=(None, False), hi=(None, False), ne=set()))
        x = -c
        if op == "!=":
            b["ne"].add(x)
            return
        strict = op == ">"
        if op == "==" or f > 0:
            lo, s = b["lo"]
            if lo is None or x > lo or (x == lo and strict):
                b["lo"] = (x, strict)
        if op == "==" or f < 0:
            hi, s = b["hi"]
            if hi is None or x < hi or (x == hi and strict):
                b["hi"] = (x, strict)

    def decide(self, q, op):
        cx = self.cx
        r = self.lookup(q, op)
        if r is not None:
            return r
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t_ok, f_ok = self.feasible(q, op)
            if not t_ok and not f_ok:
                raise PathAbort()
            v = t_ok
            if t_ok and f_ok:
                if len(self.taken) > 400:
                    raise Unsupported("more than 400 decisions on one path")
                # equalities: take the generic side first
                v = op != "=="
                self.pending.append(tuple(self.taken) + (not v,))
        self.taken.append(v)
        self.record(q, op, v)
        return v

    def record(self, q, op, v):
        cx = self.cx
        cx.pathkeys[(pkey(q), op)] = v
        if v:
            cx.path.append((q, op))
        else:
            neg = cx.ring.scale(q, -1)
            cx.path.append({">": (neg, ">="), ">=": (neg, ">"), "==": (q, "!=")}[op])

    def feasible(self, q, op):
        t_ok = f_ok = False
        live = self.live()
        for ev in live:
            t, sc = self.value(ev, q)
            if t != t:
                continue
            tol = 1e-9 * sc
            if op == "==":
                if abs(t) > tol:
                    f_ok = True
            elif t > tol:
                t_ok = True
            elif t < -tol:
                f_ok = True
            if t_ok and f_ok:
                return True, True
        neg = {">": "<=", ">=": "<", "==": "!="}[op]
        if not t_ok:
            t_ok = self.check(q, op) != z3.unsat
        if not f_ok:
            f_ok = self.check(q, neg) != z3.unsat
        return t_ok, f_ok

    def check(self, q, op):
        """z3: can  q op 0  hold on this path?  (model values join the sample pool)"""
        cx = self.cx
        key = (tuple(self.taken), pkey(q), op)
        if key in self.feas_cache:
            return self.feas_cache[key]
        r, m, enc = self.solve([(q, op)], self.feas_ms)
        if r == z3.sat:
            for s in self.from_model(m, enc):
                self.add_sample(s)
        elif r == z3.unknown:
            self.stats.inc("feasibility_unknown_kept")
        self.feas_cache[key] = r
        return r

    def two_sides(self, a, b):
        """numerators of both sides over the common denominator, each in its own normal form"""
        den = dict(a.den)
        for k, e in b.den.items():
            if den.get(k, 0) < e:
                den[k] = e
        R = self.cx.ring
        return R.reduce(term._scale_to(a.num, a.den, den)), R.reduce(term._scale_to(b.num, b.den, den))

    def solve(self, extra, ms, path=True, sides=None):
        cx = self.cx
        s = z3.Solver()
        s.set("timeout", int(ms))
        enc = Encoder(cx)
        conds = list(cx.assume) + (list(cx.path) if path else [])
        # cone of influence: keep conditions sharing variables with the goal
        conds = self.slice(conds, [p for p, _ in extra]) + list(extra)
        if sides is None and conds and self.linear_unsat(conds, min(ms, 4000)):
            return z3.unsat, None, enc
        for p, op in conds:
            p = cx.ring.reduce(p)
            enc.need(p)
        for p, op in conds:
            p = cx.ring.reduce(p)
            enc.need(p)
            s.add(enc.cond(p, op))
        if sides is not None:
            # the solver compares the two sides itself
            s = z3.Solver()
            s.set("timeout", int(ms))
            enc = Encoder(cx)
            s.add(enc.poly(sides[0]) != enc.poly(sides[1]))
        for c in enc.cons:
            s.add(c)
        t0 = time.time()
        self.stats.inc("smt_queries")
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.inc("smt_s", time.time() - t0)
        self.stats.inc(f"smt_{r}")
        return r, (s.model() if r == z3.sat else None), enc

    def linear(self, conds, ms):
        """z3 over the linear abstraction (one real per monomial) of the conditions and their pairwise
        products; only an unsat answer is meaningful"""
        cx, R = self.cx, self.cx.ring
        base = []
        for p, op in conds:
            p = R.reduce(p)
            if op in ("<", "<="):
                p, op = R.scale(p, -1), {"<": ">", "<=": ">="}[op]
            if len(p) > 500:
                continue
            base.append((p, op))
        goal = base[-1]
        for v in sorted({v for p, _ in base for v in pvars(p)}):
            i = cx.vars[v]
            if i.kind == "sqrt" or (i.kind in ("sin", "cos") and i.lo >= 0):
                base.insert(0, ({((v, 1),): 1}, ">="))
            elif i.kind in ("sin", "cos"):
                base.insert(0, ({((v, 1),): 1, ONE: 1}, ">="))
            if i.kind in ("sin", "cos"):
                base.insert(0, ({((v, 1),): -1, ONE: 1}, ">="))
        ineq = [b for b in base if b[1] in (">", ">=")]
        out = list(base)
        budget = 60000
        pairs = [(a, b) for x, a in enumerate(ineq) for b in ineq[x:]]
        pairs.sort(key=lambda t: ((t[0] is not goal and t[1] is not goal), len(t[0][0]) * len(t[1][0])))
        for a, b in pairs:
            w = len(a[0]) * len(b[0])
            if w > 12000 or budget < w:
                continue
            budget -= w
            out.append((R.mul(a[0], b[0]), ">" if a[1] == b[1] == ">" else ">="))
        for e in [b for b in base if b[1] == "=="]:
            for a in ineq:
                w = len(a[0]) * len(e[0])
                if w <= 4000 and budget >= w:
                    budget -= w
                    out.append((R.mul(a[0], e[0]), "=="))
        z, cons = {}, []

        def lin(p):
            ts = []
            for m, c in p.items():
                k = z3.RealVal(str(Fr(c)))
                if m == ONE:
                    ts.append(k)
                    continue
                x = z.get(m)
                if x is None:
                    x = z[m] = z3.Real(f"m{len(z)}")
                    if all(e % 2 == 0 for _, e in m):
                        cons.append(x >= 0)
                ts.append(k * x)
            return z3.Sum(ts) if ts else z3.RealVal(0)
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", int(ms))
        for p, op in out:
            e = lin(p)
            s.add({">": e > 0, ">=": e >= 0, "==": e == 0, "!=": e != 0}[op])
        s.add(*cons)
        t0 = time.time()
        self.stats.inc("smt_queries")
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.inc("smt_s", time.time() - t0)
        if r == z3.unsat:
            self.stats.inc("smt_unsat")
            self.stats.inc("linear_unsat")
        return r == z3.unsat

    def linear_unsat(self, conds, ms):
        p, op = conds[-1]
        if op == "!=":
            return self.linear(conds[:-1] + [(p, ">")], ms) and self.linear(conds[:-1] + [(p, "<")], ms)
        return self.linear(conds, ms)

    def closure(self, p):
        cx = self.cx
        key = pkey(p)
        c = cx.cache.get(("clo", key, cx.ring.version))
        if c is None:
            c = set()
            todo = list(pvars(p))
            while todo:
                v = todo.pop()
                if v in c:
                    continue
                c.add(v)
                for d in cx.vars[v].deps:
                    todo.extend(pvars(d))
                i = cx.vars[v]
                for mono, b in cx.atoms.items():
                    vs = b.get("vars")
                    if vs and v in vs:
                        todo.extend(x for x, _ in mono)
            c.discard(cx._pi)
            cx.cache[("clo", key, cx.ring.version)] = c
        return c

    def slice(self, conds, goals):
        want = set()
        for g in goals:
            want |= self.closure(self.cx.ring.reduce(g))
        cl = [(c, self.closure(self.cx.ring.reduce(c[0]))) for c in conds]
        out = [False] * len(cl)
        ch = True
        while ch:
            ch = False
            for i, (c, v) in enumerate(cl):
                if not out[i] and (v & want):
                    out[i] = True
                    if not v <= want:
                        want |= v
                        ch = True
        return [c for i, (c, _) in enumerate(cl) if out[i]]

    def from_model(self, m, enc):
        """inputs (floats) from a model; missing inputs take values of a random sample"""
        cx = self.cx
        base = dict(self.samples[len(self.feas_cache) % len(self.samples)]) if self.samples else {}
        base.pop("_rng", None)
        a = dict(base)
        b = dict(base)
        for n, d in cx.inputs.items():
            v = d["var"]
            val = None
            if v in enc.z:
                val = _zval(m, enc.z[v])
            if val is not None:
                a[n] = b[n] = val
            elif n not in a:
                a[n] = b[n] = 0.0
            if d["kind"] == "angle":
                for mono, bs in cx.atoms.items():
                    if mono == ((v, 1),) and bs.get("vars"):
                        s, c = bs["vars"]
                        if s in enc.z or c in enc.z:
                            zs = _zval(m, enc.z[s]) if s in enc.z else None
                            zc = _zval(m, enc.z[c]) if c in enc.z else None
                            if zs is not None and zc is not None:
                                ang = math.atan2(zs, zc) * bs["D"]
                                lo = float(d["lo"]) * PI
                                if ang < lo - 1e-9:
                                    ang += 2 * PI
                                b[n] = ang
        return [a] if a == b else [a, b]

    def add_sample(self, s):
        for n, d in self.cx.inputs.items():
            x = s.get(n, 0.0)
            lo, hi = d["lo"], d["hi"]
            if d["kind"] == "angle":
                lo, hi = float(lo) * PI, float(hi) * PI
            if lo is not None:
                x = max(x, float(lo))
            if hi is not None:
                x = min(x, float(hi))
            s[n] = x
        self.samples.append(s)
        if self.alive is not None:
            ev = self.cx.evaluator(s)
            conds = self.cx.assume + self.cx.path
            if all(self.holds(ev, p, op) for p, op in conds):
                self.alive.append(ev)

    # ---- obligations ------------------------------------------------------
    def oblige(self, name, p, op, tol=1e-9, parts=()):
        """p op 0 must hold on this path; op in '==', '>=', '>'.  `parts` set the scale of the tolerance"""
        self.ob_here += 1
        self.stats.inc("obligations")
        cx = self.cx
        p = Sym.lift(p)
        if isinstance(p, float):
            return self.claim(name, p == 0 if op == "==" else p >= 0, count=False)
        num = cx.ring.reduce(p.num)
        if op == "==":
            q = num
        else:
            q = cx.ring.reduce(Sym(num, p.den).sign_poly())
        neg = {"==": "!=", ">=": "<", ">": "<="}[op]
        if q:
            # concrete witnesses of the path first: they give counterexamples cheaply
            bad = self.refute(Sym(num, p.den), op, tol, parts, self.live()[:40])
            if bad:
                self.fail(name, bad)
                return False
        if q:
            known = self.lookup(primitive(q)[1] if primitive(q)[0] > 0 or op == "==" else cx.ring.scale(primitive(q)[1], -1), op)
            if known is True:
                self.stats.inc("discharged")
                self.stats.inc("by_path")
                return True
        sides = None
        if not q and op == "==" and len(parts) >= 2 and isinstance(parts[0], Sym) and isinstance(parts[1], Sym):
            sides = self.two_sides(parts[0], parts[1])
        r, m, enc = self.solve([(q, neg)], self.prove_ms, sides=sides)
        if r == z3.unsat:
            self.stats.inc("discharged")
            if not q:
                self.stats.inc("after_normal_form")
            return True
        if r == z3.sat:
            bad = []
            for s in self.from_model(m, enc):
                self.add_sample(s)
                ev = cx.evaluator(s)
                if all(self.holds(ev, pp, o) for pp, o in cx.assume + cx.path):
                    bad += self.refute(Sym(num, p.den), op, tol, parts, [ev])
            if bad:
                self.fail(name, bad)
                return False
        self.undecided(name, f"{r}; residue {self.fmt(q)}")
        return None

    def undecided(self, name, why):
        cx = self.cx
        self.unknown.append((f"{self.name}: {name}", f"{why} (path of {len(cx.path)} decisions: "
                             + "; ".join(f"{self.fmt(a)} {o} 0" for a, o in cx.path[-4:]) + ")",
                             [dict(ev.inputs) for ev in self.live()[:8]]))

    def refute(self, p, op, tol, parts, evs):
        """inputs among evs at which p op 0 fails by more than the tolerance (50 digits)"""
        import mpmath
        cx = self.cx
        bad = []
        for ev in evs:
            try:
                with mpmath.workdps(40):
                    e2 = cx.evaluator(ev.inputs, mpmath.mp)
                    val = e2.rat(p)
                    scale = mpmath.mpf(0)
                    for x in parts:
                        x = e2.rat(Sym.lift(x)) if not isinstance(x, (int, float)) else x
                        scale = max(scale, abs(x))
                    val, scale = mpmath.re(val), scale or mpmath.mpf(1)
                    lim = tol * scale
                    d = abs(val) if op == "==" else -val
                    # a tolerance inside which floats cannot tell, plus a margin so that the replay agrees
                    if d > lim * 1.5:
                        bad.append((float(d / scale), ev.inputs))
            except (ArithmeticError, ValueError, TypeError):
                continue
            if len(bad) >= 6:
                break
        bad.sort(key=lambda t: -t[0])
        return [b[1] for b in bad[:6]]

    def claim(self, name, ok, count=True):
        """a statement decided by the path itself"""
        if count:
            self.ob_here += 1
            self.stats.inc("obligations")
        if ok:
            self.stats.inc("discharged")
            self.stats.inc("by_path")
            return True
        live = self.live()
        if live:
            self.fail(name, [dict(ev.inputs) for ev in live[:6]])
            return False
        r, cands = self.reach()
        if r == z3.unsat:
            self.stats.inc("discharged")
            self.stats.inc("by_infeasible_path")
            raise PathAbort()
        if cands:
            self.fail(name, cands)
            return False
        self.undecided(name, f"path reachability {r}")
        return None

    def reach(self):
        """is the current path reachable?"""
        cx = self.cx
        conds = cx.assume + cx.path
        if not conds:
            return z3.sat, [dict(s) for s in self.samples[:4]]
        if self.linear_unsat(conds, 4000):
            return z3.unsat, []
        s = z3.Solver()
        s.set("timeout", int(self.prove_ms))
        enc = Encoder(cx)
        for p, op in conds:
            enc.need(cx.ring.reduce(p))
        for p, op in conds:
            s.add(enc.cond(cx.ring.reduce(p), op))
        s.add(*enc.cons)
        t0 = time.time()
        self.stats.inc("smt_queries")
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.inc("smt_s", time.time() - t0)
        self.stats.inc(f"smt_{r}")
        out = []
        if r == z3.sat:
            for c in self.from_model(s.model(), enc):
                self.add_sample(c)
                out.append(c)
        return r, out

    def fail(self, name, inputs):
        self.stats.inc("refuted")
        self.failures.append((name, [dict(i) for i in inputs]))


def _zval(m, z):
    try:
        v = m.eval(z, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        if z3.is_rational_value(v) or z3.is_int_value(v):
            return float(Fr(v.numerator_as_long(), v.denominator_as_long()) if z3.is_rational_value(v) else v.as_long())
    except Exception:
        return None
    return None

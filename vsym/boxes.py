"""The enclosure engine: a harness is executed on batches of boxes, every value a Taylor model over the box.

The input domain is a union of boxes.  A run executes the real code once for a whole batch; at a branch the boxes of the batch take the
side their enclosure shows, those it leaves open take both sides one after the other (or are cut), boxes of the other side are executed
again with the decisions so far as their prefix.  An assertion is handed to the solver as: is there a point of one of these boxes, given
what the enclosure says, where it fails?  Boxes for which it is not excluded are cut and executed again.
"""
from __future__ import annotations
import collections
import math
import random
import time
from fractions import Fraction as Fr

import numpy as np

from . import loader, shims, term, tm
from .tm import TM

TOLF = 0.9          # share of the replay tolerance that the solver has to establish


class Box:
    __slots__ = ("lo", "hi", "depth", "split", "unit", "score", "last")

    def __init__(self, lo, hi, depth, unit, score=None, last=None):
        self.lo, self.hi, self.depth, self.split, self.unit = lo, hi, depth, False, unit
        self.score = score or {}        # variable -> how much its last cut narrowed the enclosure
        self.last = last                # (variable, assertion, width of the enclosure) of the cut this box comes from

    def mid(self):
        return [0.5 * (a + b) for a, b in zip(self.lo, self.hi)]


class Task:
    __slots__ = ("box", "forks")

    def __init__(self, box, forks):
        self.box, self.forks = box, forks


class Batch:
    """one execution of the harness"""

    def __init__(self, eng, tasks, prefix):
        self.eng, self.tasks, self.prefix, self.path = eng, tasks, prefix, []
        self.B = len(tasks)
        self.ms = eng.ms
        self.alive = np.ones(self.B, dtype=bool)
        self.forks = np.array([t.forks for t in tasks])

    def stop(self):
        if not self.alive.any():
            raise tm.Abort()
        if time.time() > self.eng.deadline:
            raise Timeout()

    def need_split(self, mask):
        """the boxes are too wide for the enclosure"""
        mask = mask & self.alive
        for b in np.nonzero(mask)[0]:
            self.eng.cut(self.tasks[b].box, "undecided enclosure")
        self.alive &= ~mask
        self.stop()

    def kill(self, b):
        self.alive[b] = False

    def choose(self, lo, hi):
        lo, hi = np.broadcast_to(lo, (self.B,)), np.broadcast_to(hi, (self.B,))
        i = len(self.path)
        self.eng.st["decisions"] += 1
        if i < len(self.prefix):
            v = self.prefix[i]
            self.path.append(v)
            out = self.alive & ((lo > v) | (hi < v))
            if out.any():
                raise Misaligned(f"decision {i} of the prefix does not fit")
            return v
        al = self.alive
        sure = al & (lo == hi)
        if sure.any():
            vals, cnt = np.unique(lo[sure], return_counts=True)
            v = int(vals[np.argmax(cnt)])
        else:
            v = int(lo[al][0])
        pre = tuple(self.path)
        if (al & ((lo != v) | (hi != v))).any():
            for b in np.nonzero(al & ((lo != v) | (hi != v)))[0]:
                t = self.tasks[b]
                l, h = int(lo[b]), int(hi[b])
                if l == h:
                    self.eng.push(Task(t.box, self.forks[b]), pre + (l,))
                    self.kill(b)
                    continue
                if self.forks[b] + (h - l) > self.eng.max_forks or h - l > 4:
                    self.eng.cut(t.box, "undecided branch")
                    self.kill(b)
                    continue
                self.forks[b] += h - l
                for w in range(l, h + 1):
                    if w != v:
                        self.eng.push(Task(t.box, self.forks[b]), pre + (w,))
                if not l <= v <= h:
                    self.kill(b)
        self.stop()
        self.path.append(v)
        return v


class Timeout(BaseException):
    pass


class Misaligned(BaseException):
    """a decision was numbered differently in another batch: an error of the engine"""


class TooMany(BaseException):
    pass


class Engine:
    def __init__(self, c, mode, tier, seed, shard=(0, 1), deadline=None):
        o = c.opts
        self.c, self.mode, self.o = c, mode, o
        th = tier == "thorough"
        self.names = [v["name"] for v in o["vars"]]
        full = [v for v in o["vars"] if not v.get("lin")]
        lin = [v for v in o["vars"] if v.get("lin")]
        order = o.get("order_thorough" if th else "order", o.get("order", 5))
        self.ms = tm.mono(len(full), len(lin), order)
        self.pos = {}
        for i, v in enumerate(full):
            self.pos[v["name"]] = self.ms.lin[i]
        for i, v in enumerate(lin):
            self.pos[v["name"]] = self.ms.lin[len(full) + i]
        self.islin = [bool(v.get("lin")) for v in o["vars"]]
        self.cont = [bool(v.get("integer")) for v in o["vars"]]
        self.max_forks = o.get("max_forks", 6)
        self.max_depth = o.get("max_depth", 24)
        self.batch = o.get("batch", 384)
        self.deadline = time.time() + (o.get("time_limit_thorough", 2400) if th else o.get("time_limit", 330))
        if deadline:
            self.deadline = min(self.deadline, max(time.time() + 20, deadline))
        self.queue = collections.OrderedDict()
        self.st = collections.Counter()
        self.stf = collections.Counter()
        self.fail, self.unknown = [], []
        grids = [list(zip(v["breaks"][:-1], v["breaks"][1:])) for v in o["vars"]]
        import itertools
        self.roots = 0
        cells = [c for i, c in enumerate(itertools.product(*grids)) if i % shard[1] == shard[0]]
        random.Random(seed).shuffle(cells)      # a time limit leaves no region out altogether
        for cell in cells:
            self.push(Task(Box([a for a, _ in cell], [b for _, b in cell], 0, [max(b - a, 1e-300) for a, b in cell]), 0), ())
            self.roots += 1
        self.wit = []
        self.rng = random.Random(seed)
        self.samples = []
        self.z3 = None

    # ---- the worklist
    def push(self, task, prefix):
        self.queue.setdefault(prefix, []).append(task)

    def cut(self, box, why, dev=None):
        """halve the variable whose cuts narrow the enclosure most"""
        if box.split:
            return
        box.split = True
        self.st["cut"] += 1
        if box.depth >= self.max_depth:
            self.unknown.append([why, f"undecided at depth {box.depth}", self.points(box)])
            if len(self.unknown) > 60:
                raise TooMany()
            return
        score = {v: 0.85 * x for v, x in box.score.items()}
        if box.last and box.last[1] == why and dev is not None and box.last[2]:
            score[box.last[0]] = min(2.0, dev / box.last[2]) if dev == dev else 1.0
        w = [(b - a) / u for a, b, u in zip(box.lo, box.hi, box.unit)]
        cand = [i for i in range(len(w)) if w[i] > 1e-12 and not self.islin[i]] or [i for i in range(len(w)) if w[i] > 1e-12] or [0]
        new = [i for i in cand if i not in score]
        v = max(cand, key=lambda i: w[i]) if dev is None else max(new, key=lambda i: w[i]) if new else min(cand, key=lambda i: (score[i], -w[i]))
        m = 0.5 * (box.lo[v] + box.hi[v])
        a, b = list(box.hi), list(box.lo)
        a[v], b[v] = m, m
        last = (v, why, dev)
        self.push(Task(Box(box.lo, a, box.depth + 1, box.unit, score, last), 0), ())
        self.push(Task(Box(b, box.hi, box.depth + 1, box.unit, score, last), 0), ())

    def points(self, box):
        pts = [box.mid()]
        for _ in range(2):
            pts.append([a + (b - a) * self.rng.random() for a, b in zip(box.lo, box.hi)])
        pts.append(list(box.lo))
        return [dict(zip(self.names, map(float, p))) for p in pts]

    # ---- running
    def run(self):
        try:
            while self.queue:
                prefix = max(self.queue, key=lambda p: (len(p), len(self.queue[p]))) if self.stf["runs"] % 4 else next(iter(self.queue))
                tasks = self.queue[prefix]
                take, rest = tasks[-self.batch:], tasks[: -self.batch]
                if rest:
                    self.queue[prefix] = rest
                else:
                    del self.queue[prefix]
                take = [t for t in take if not t.box.split]
                if not take:
                    continue
                self.stf["runs"] += 1
                self.execute(take, prefix)
                if len(self.fail) > 30:
                    break
        except Timeout:
            left = sum(len(v) for v in self.queue.values())
            pts = [self.points(t.box)[0] for v in self.queue.values() for t in v][:60]
            self.unknown.append([self.c.name, f"time limit with {left} boxes left", pts])
        except TooMany:
            pass

    def execute(self, tasks, prefix):
        bt = Batch(self, tasks, prefix)
        tm.CUR = bt
        shims.WSTACK.clear()
        lo = np.array([t.box.lo for t in tasks]).T
        hi = np.array([t.box.hi for t in tasks]).T
        self.lo, self.hi = lo, hi
        k = KB(self, bt)
        ok = True
        try:
            self.c.fn(self.P, k)
        except (tm.Abort, Skip):
            ok = False
        except Misaligned as e:
            self.unknown.append([f"{self.c.name}: engine", str(e), []])
            raise TooMany()
        except (Timeout, TooMany):
            raise
        except shims.Unsupported as e:
            ok = False
            self.unknown.append([f"{self.c.name}: not encodable", str(e), [p for t in tasks[:40] for p in self.points(t.box)[:1]]])
            raise TooMany()
        except Exception as e:
            import traceback
            if type(e).__module__.startswith("z3"):
                raise
            ok = False
            try:
                self.claim(f"raised {type(e).__name__}: {e} at {traceback.extract_tb(e.__traceback__)[-1][:3]}", False, bt)
            except tm.Abort:
                pass
        if ok:
            n = int(bt.alive.sum())
            self.st["paths"] += n
            self.st["boxes"] += n
            for b in np.nonzero(bt.alive)[0]:
                if len(self.wit) < 60 and self.rng.random() < 0.1 or len(self.wit) < 5:
                    if not bt.forks[b]:
                        self.wit.append(self.points(tasks[b].box)[self.rng.randrange(2)])
            if len(self.samples) < 2:
                b = int(np.nonzero(bt.alive)[0][0]) if n else 0
                self.samples.append(f"box {dict(zip(self.names, zip(tasks[b].box.lo, tasks[b].box.hi)))} decisions {bt.path[:30]}")

    # ---- assertions
    def claim(self, name, cond, bt):
        """a condition decided by the path"""
        n = int(bt.alive.sum())
        self.st["obligations"] += n
        if cond:
            self.st["discharged"] += n
            self.st["by_path"] += n
            return
        for b in np.nonzero(bt.alive)[0]:
            box = bt.tasks[b].box
            if not bt.forks[b]:
                self.fail.append((name, self.points(box)))
                box.split = True
                if len(self.fail) > 30:
                    raise TooMany()
            else:
                self.cut(box, name)
        bt.alive[:] = False
        raise tm.Abort()

    def oblige(self, name, d, lim, bt, two_sided):
        """|d| <= lim (or d >= -lim) for every point of every live box"""
        al = bt.alive
        if not isinstance(d, TM):
            d = TM.const(d)
        lo, hi = d.hull()
        bad = ~(lo >= -lim)
        if two_sided:
            bad |= ~(hi <= lim)
        bad &= al
        good = np.nonzero(al & ~bad)[0]
        self.st["obligations"] += int(al.sum())
        if len(good):
            v = self.solve(d, lim, good, two_sided)
            if v:
                self.st["discharged"] += len(good)
            else:
                bad[good] = True
        out = hi < -lim
        if two_sided:
            out |= lo > lim
        for b in np.nonzero(bad)[0]:
            box = bt.tasks[b].box
            if out[b] and not bt.forks[b]:
                self.fail.append((name, self.points(box)))
                box.split = True
                if len(self.fail) > 30:
                    raise TooMany()
            else:
                self.cut(box, name, float(hi[b] - lo[b]))
        if bad.any():
            bt.alive &= ~bad
            bt.stop()

    def solve(self, d, lim, idx, two_sided):
        """no point of the boxes violates the bound: linear arithmetic over the centre c and the deviation w of the enclosures"""
        import z3
        if self.z3 is None:
            self.z3 = z3.SolverFor("QF_LRA")
        s = self.z3
        t0 = time.time()
        D = self.ms.bydeg(d.c)[:, idx]
        # in units of the limit, rounded outward
        up = 1 + 1e-12
        L = np.broadcast_to(lim, (self.bt_n(d),))[idx]
        c = d.c[0, idx] / L
        with np.errstate(all="ignore"):
            w = ((d.r + np.abs(d.c[0]) * 1e-15)[idx] / L + np.abs(c) * 1e-15 + D[1:].sum(axis=0) / L) * up
        # one disjunct per group of boxes: it covers every box of the group
        alts = []
        cp, cm = np.maximum(c, 0), np.maximum(-c, 0)
        todo = [np.argsort(np.maximum(cp, cm), kind="stable")]
        while todo:
            g = todo.pop()
            m = (cm[g].max(), cp[g].max(), w[g].max())
            if len(g) == 1 or max(m[0], m[1]) + m[2] < 0.97:
                alts.append((-m[0], m[1], m[2]) if len(g) > 1 else (c[g[0]], c[g[0]], m[2]))
                continue
            todo += [g[: len(g) // 2], g[len(g) // 2:]]
        viol = "(or (> v 1.0) (< v (- 1.0)))" if two_sided else "(< v (- 1.0))"
        txt = []
        for c0, c1, h in alts:
            if not all(map(math.isfinite, (c0, c1, h))):
                return False
            txt.append(f"(and (>= c {_dn(c0)}) (<= c {_dec(c1)}) (<= w {_dec(h)}) (>= w {_dn(-h)}))")
        s.push()
        s.add(z3.parse_smt2_string("(declare-const c Real)(declare-const w Real)(declare-const v Real)"
                                   f"(assert (= v (+ c w)))(assert {viol})(assert (or " + "\n".join(txt) + " false))"))
        r = s.check()
        s.pop()
        self.st["smt_queries"] += 1
        self.stf["smt_ms"] += int(1e6 * (time.time() - t0))
        self.st["smt_" + str(r)] += 1
        return r == z3.unsat

    def bt_n(self, d):
        return d.c.shape[1]


def _dec(x):
    """a decimal not below x"""
    n = math.ceil(float(x) * 1000000)
    return f"{n / 1000000:.6f}" if n >= 0 else f"(- {-n / 1000000:.6f})"


def _dn(x):
    """a decimal not above x"""
    n = math.floor(float(x) * 1000000)
    return f"{n / 1000000:.6f}" if n >= 0 else f"(- {-n / 1000000:.6f})"


class Skip(BaseException):
    pass


def _f(name):
    def g(self, *a):
        if not any(isinstance(x, TM) for x in a):
            return getattr(math, name)(*a)
        return tm.call(name, False, tuple(a))
    return g


class KB:
    symbolic = True
    pi = math.pi

    def __init__(self, eng, bt):
        self.eng, self.bt = eng, bt
        self.mode = eng.mode
        self.numpy = self.mode == "numpy"

    def var(self, name):
        i = self.eng.names.index(name)
        lo, hi = self.eng.lo[i], self.eng.hi[i]
        c = np.zeros((self.bt.ms.M, self.bt.B))
        m = 0.5 * (lo + hi)
        c[0] = m
        c[self.eng.pos[name]] = 0.5 * (hi - lo)
        return TM(c, 4e-16 * np.maximum(np.abs(lo), np.abs(hi)), self.numpy)

    for _n in ("sin", "cos", "tan", "asin", "acos", "atan", "atan2", "log", "exp", "asinh", "atanh", "sinh", "cosh", "tanh", "hypot", "sqrt"):
        locals()[_n] = _f(_n)

    def abs(self, x):
        return abs(x)

    def const(self, x):
        return float(Fr(x))

    def rad(self, x, deg):
        return self._scalar(x) * (math.pi / 180) if deg else x

    def from_rad(self, x, deg):
        return x * (180 / math.pi) if deg else x

    def turn(self, deg):
        return 360.0 if deg else 2 * math.pi

    def assume(self, cond):
        if not cond:
            raise Skip()

    def arr(self, *xs):
        out = np.empty((len(xs),), dtype=object)
        for i, x in enumerate(xs):
            out[i] = x
        return out

    def _scalar(self, x):
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise ValueError(f"expected one value, got shape {x.shape}")
            x = x.reshape(-1)[0]
        return x

    def true(self, name, cond):
        self.eng.claim(name, bool(cond), self.bt)

    def isnan(self, x):
        x = self._scalar(x)
        return isinstance(x, float) and x != x

    @staticmethod
    def _mig(x):
        if isinstance(x, TM):
            lo, hi = x.hull()
            return np.where((lo <= 0) & (hi >= 0), 0.0, np.minimum(np.abs(lo), np.abs(hi)))
        return abs(float(x))

    def _ok(self, name, *xs):
        for x in xs:
            if isinstance(x, TM):
                continue
            if not isinstance(x, (int, float, np.floating, np.integer)):
                self.true(f"{name}: result is {type(x).__name__}", False)
            if not math.isfinite(x):
                return False
        return True

    def eq(self, name, got, want, tol=1e-9, scale=0, atol=0):
        got, want = self._scalar(got), self._scalar(want)
        if not self._ok(name, got, want):
            g, w = [x if not isinstance(x, TM) else None for x in (got, want)]
            return self.true(f"{name}: {g} against {w}", (g is not None and w is not None) and (g == w or g != g and w != w))
        lim = TOLF * (tol * np.maximum(np.maximum(self._mig(got), self._mig(want)), np.maximum(self._mig(scale), 1e-300)) + atol)
        self.eng.oblige(name, tm.lift(got) - tm.lift(want), np.broadcast_to(lim, (self.bt.B,)), self.bt, True)

    def ang(self, name, got, want, deg=False, tol=1e-9, scale=0):
        got, want = self._scalar(got), self._scalar(want)
        if not self._ok(name, got, want):
            return self.true(f"{name}: not a number", False)
        t = 360.0 if deg else 2 * math.pi
        d = tm.lift(got) - tm.lift(want)
        kk = np.round(np.where(np.isfinite(d.c[0]), d.c[0], 0) / t)
        d = d.shift(-kk * t)
        lim = TOLF * tol * np.maximum(1.0, self._mig(scale)) * (t / (2 * math.pi))
        self.eng.oblige(name, d, np.broadcast_to(lim, (self.bt.B,)), self.bt, True)

    def ge(self, name, a, b, tol=1e-9, scale=0):
        a, b = self._scalar(a), self._scalar(b)
        if not self._ok(name, a, b):
            fa, fb = [x if not isinstance(x, TM) else 0.0 for x in (a, b)]
            return self.true(f"{name}: {fa} >= {fb}", fa >= fb)
        lim = TOLF * tol * np.maximum(np.maximum(self._mig(a), self._mig(b)), np.maximum(self._mig(scale), 1e-300))
        self.eng.oblige(name, tm.lift(a) - tm.lift(b), np.broadcast_to(lim, (self.bt.B,)), self.bt, False)

    gt = ge

    def between(self, name, x, lo, hi, tol=1e-9, hi_open=False):
        self.ge(name + " >= lower bound", x, lo, tol)
        self.ge(name + " <= upper bound", hi, x, tol)

    def vec(self, name, got, want, tol=1e-9, scale=0, atol=0):
        got, want = list(got), list(want)
        self.true(name + ": number of components", len(got) == len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            self.eq(f"{name}[{i}]", g, w, tol, scale, atol)

    def norm2(self, v):
        return v[0] * v[0] + v[1] * v[1] + v[2] * v[2]

    def raises(self, name, exc, fn):
        try:
            fn()
        except exc:
            return self.true(name, True)
        except (shims.Unsupported, tm.Abort, Timeout, TooMany, Misaligned):
            raise
        except Exception as e:
            return self.true(f"{name}: raised {type(e).__name__}", False)
        self.true(f"{name}: nothing raised", False)


def run_case(c, mode, tier, seed, shard=(0, 1), deadline=None):
    shims.BK.kind = "num"
    term.CTX = None
    loader.start_monitor()
    eng = Engine(c, mode, tier, seed, shard, deadline)
    eng.P = loader.Loader(mode)
    np.seterr(all="ignore")
    eng.run()
    st = dict(eng.st)
    st["smt_s"] = eng.stf["smt_ms"] / 1e6
    if not st.get("discharged") and not eng.fail:
        eng.unknown.append([c.name, "vacuous: no obligation was discharged", []])
    dom = "; ".join(f"{v['name']} in [{v['breaks'][0]:g}, {v['breaks'][-1]:g}]" for v in c.opts["vars"])
    return dict(stats=st, failures=[[a, b] for a, b in eng.fail], unknown=[list(u) for u in eng.unknown], funcs=sorted(loader.FUNCS),
                samples=eng.samples, pool=[], stubbed=False, witnesses=eng.wit,
                bounds=f"every point of {dom}; Taylor models of order {eng.ms.N}; {c.opts.get('bounds', '')}".rstrip("; "),
                assumptions=list(c.opts.get("assumptions", [])) + [
                    "enclosure engine: a comparison whose two sides agree to within 1e-11 is taken one way (the lower), equality of two "
                    "values that are not constant is taken to fail"])

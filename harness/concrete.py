"""Concrete side of the harnesses: replays one set of inputs against the real package.

    python concrete.py MODULE CASE MODE REPLAY.json [index]

prints one line per failed assertion and exits 1; exits 0 when everything holds, 3 when the inputs
are outside the harness's assumptions, 4 when the harness itself failed.
Uses only the standard library (and numpy in numpy mode); needs no solver.
"""
import importlib
import json
import math
import os
import sys


class Skip(Exception):
    pass


class NoAstropy:
    """the astropy routes are out of scope: imports of it fail, as in an environment without it"""

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in ("astropy", "scipy", "xarray", "pandas"):
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


class Pkg:
    def __init__(self):
        import pymap3d
        self.pkg = pymap3d

    def __getattr__(self, n):
        return importlib.import_module("pymap3d." + n)


class KC:
    symbolic = False

    def __init__(self, mode, inputs):
        self.mode, self.inputs = mode, inputs
        self.numpy = mode == "numpy"
        self.tf = float(os.environ.get("VSYM_TOL", "1"))
        self.failed = []
        self.checks = 0
        if self.numpy:
            import numpy
            self.np = numpy

    # ---- inputs
    def var(self, name):
        """an input of the enclosure engine (its domain is declared with the case)"""
        return float(self.inputs[name])

    def real(self, name, lo=None, hi=None, lo_open=False, sample=None):
        x = float(self.inputs[name])
        if lo is not None and (x < lo or (lo_open and x <= lo)) or hi is not None and x > hi:
            raise Skip(name)
        return x

    def angle(self, name, lo=-1, hi=1, deg=False, hi_open=False, sample=None):
        x = float(self.inputs[name])
        x = min(max(x, float(lo) * math.pi), float(hi) * math.pi)
        if hi_open and x >= float(hi) * math.pi:
            raise Skip(name)
        return math.degrees(x) if deg else x

    def latitude(self, name, deg=False):
        return self.angle(name, -0.5, 0.5, deg)

    def unit3(self, name):
        x, y, z = [float(self.inputs[f"{name}_{i}"]) for i in (1, 2, 3)]
        z = math.copysign(math.sqrt(max(0.0, 1 - x * x - y * y)), z)
        m = math.sqrt(x * x + y * y + z * z)
        return (x / m, y / m, z / m)

    def assume_unit(self, d):
        """only the symbolic side needs to be told"""

    def fact(self, x):
        """only the symbolic side needs to be told"""

    def integer(self, name, lo, hi, sample=None):
        return min(hi, max(lo, int(round(float(self.inputs[name])))))

    def floor(self, x):
        return math.floor(x)

    def time(self, name, lo, hi, tz=None):
        import datetime as dt
        t = dt.datetime(2000, 1, 1) + dt.timedelta(seconds=float(self.inputs[name]))
        t = min(max(t, dt.datetime(*lo)), dt.datetime(*hi))
        return t.replace(tzinfo=tz)

    def timezone(self, minutes):
        import datetime as dt
        return dt.timezone(dt.timedelta(minutes=minutes))

    def in_zone(self, t, minutes):
        import datetime as dt
        return t.replace(tzinfo=dt.timezone.utc).astimezone(dt.timezone(dt.timedelta(minutes=minutes)))

    def datetime64(self, t):
        return self.np.datetime64(t)

    def timespan(self, seconds):
        import datetime as dt
        return dt.timedelta(seconds=seconds)

    def seconds(self, t):
        import datetime as dt
        d = (t.replace(tzinfo=dt.timezone.utc) if t.tzinfo is None else t) - dt.datetime(2000, 1, 1, tzinfo=dt.timezone.utc)
        return d.days * 86400 + d.seconds + d.microseconds / 1e6

    def date(self, *fields, tz=None, naive=False):
        import datetime as dt
        try:
            return dt.datetime(*[int(f) for f in fields], tzinfo=None if naive else tz or dt.timezone.utc)
        except ValueError:
            raise Skip("no such date")

    def stub_julian(self, P):
        """only the symbolic side replaces functions"""

    def stub_rotation(self, P, path):
        """only the symbolic side replaces functions"""

    def opaque_trig(self):
        """only the symbolic side"""

    pi = math.pi

    def turn(self, deg):
        return 360.0 if deg else 2 * math.pi

    def rad(self, x, deg):
        return math.radians(self._scalar(x)) if deg else x

    def from_rad(self, x, deg):
        return math.degrees(self._scalar(x)) if deg else x

    def const(self, x):
        from fractions import Fraction
        return float(Fraction(x))

    def ellipsoid(self, P, tag="", a_name=None, sphere=False):
        a = self.real("a" + tag, 0, None, True)
        b = a if sphere else self.real("b" + tag, 0, None, True)
        if b > a:
            raise Skip("b > a")
        return P.ellipsoid.Ellipsoid(a, b), a, b

    def arr(self, *xs):
        return self.np.array([float(x) for x in xs])

    def arr2(self, rows):
        return self.np.array([[float(x) for x in r] for r in rows])

    sin = staticmethod(lambda x: math.sin(x))
    cos = staticmethod(lambda x: math.cos(x))
    tan = staticmethod(lambda x: math.tan(x))
    asin = staticmethod(lambda x: math.asin(max(-1.0, min(1.0, x))))
    acos = staticmethod(lambda x: math.acos(max(-1.0, min(1.0, x))))
    atan2 = staticmethod(lambda y, x: math.atan2(y, x))
    atan = staticmethod(lambda x: math.atan(x))
    atanh = staticmethod(lambda x: math.atanh(x) if abs(x) < 1 else math.copysign(math.inf, x))
    asinh = staticmethod(lambda x: math.asinh(x))
    exp = staticmethod(lambda x: math.exp(x))
    sinh = staticmethod(lambda x: math.sinh(x))
    cosh = staticmethod(lambda x: math.cosh(x))
    tanh = staticmethod(lambda x: math.tanh(x))
    hypot = staticmethod(lambda x, y: math.hypot(x, y))
    log = staticmethod(lambda x: math.log(x) if x > 0 else -math.inf)
    abs = staticmethod(lambda x: abs(x))

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float("nan")

    def cbrt(self, x):
        return math.copysign(abs(x) ** (1 / 3), x)

    def assume(self, cond):
        if not cond:
            raise Skip("assumption")

    def stub(self, P, path, nout, angles=()):
        """only the symbolic side replaces functions"""

    stub_elementwise = stub

    def nonneg(self, x):
        """only the symbolic side needs to be told"""

    def isnan(self, x):
        x = self._scalar(x)
        return x != x

    def positive(self, x):
        """only the symbolic side needs to be told"""

    # ---- checks
    def _scalar(self, x):
        if hasattr(x, "shape") and hasattr(x, "reshape"):
            if x.size != 1:
                raise ValueError(f"expected one value, got shape {x.shape}")
            x = x.reshape(-1)[0]
        return x

    def note(self, name, ok, detail=""):
        self.checks += 1
        if not ok:
            self.failed.append(f"{name}: {detail}" if detail else name)

    def eq(self, name, got, want, tol=1e-9, scale=0, atol=0):
        got, want = self._scalar(got), self._scalar(want)
        try:
            got, want = float(got), float(want)
        except (TypeError, ValueError):
            return self.note(name, False, f"result is {type(got).__name__}")
        if got != got or want != want or math.isinf(got) or math.isinf(want):
            return self.note(name, (got != got and want != want) or got == want, f"got {got!r}, expected {want!r}")
        lim = self.tf * tol * max(1e-300, abs(got), abs(want), abs(float(scale))) + atol
        self.note(name, abs(got - want) <= lim, f"got {got!r}, expected {want!r} (tolerance {lim:.3g})")

    def ang(self, name, got, want, deg=False, tol=1e-9, scale=0):
        got, want = float(self._scalar(got)), float(self._scalar(want))
        t = 360.0 if deg else 2 * math.pi
        if got != got or want != want:
            return self.note(name, False, f"got {got!r}, expected {want!r}")
        d = math.remainder(got - want, t)
        lim = self.tf * tol * max(1.0, float(scale)) * (t / (2 * math.pi)) * max(1.0, abs(got) / t, abs(want) / t)
        self.note(name, abs(d) <= lim, f"got {got!r}, expected {want!r} modulo {t:.6g} (tolerance {lim:.3g})")

    def ge(self, name, a, b, tol=1e-9, scale=0):
        a, b = float(self._scalar(a)), float(self._scalar(b))
        lim = self.tf * tol * max(1e-300, abs(a) if abs(a) < math.inf else 0, abs(b) if abs(b) < math.inf else 0, abs(float(scale)))
        self.note(name, a >= b - lim, f"{a!r} >= {b!r} fails")

    def gt(self, name, a, b, tol=1e-9):
        return self.ge(name, a, b, tol)

    def between(self, name, x, lo, hi, tol=1e-9, hi_open=False):
        self.ge(name + " >= lower bound", x, lo, tol)
        self.ge(name + " <= upper bound", hi, x, tol)

    def true(self, name, cond):
        self.note(name, bool(cond))

    def near(self, cond):
        return bool(cond)

    def vec(self, name, got, want, tol=1e-9, scale=0, atol=0):
        got, want = list(got), list(want)
        self.true(name + ": number of components", len(got) == len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            self.eq(f"{name}[{i}]", g, w, tol, scale, atol)

    def raises(self, name, exc, fn):
        try:
            fn()
        except exc:
            return self.note(name, True)
        except Exception as e:
            return self.note(name, False, f"raised {type(e).__name__}: {e}")
        self.note(name, False, "nothing raised")

    def norm2(self, v):
        return v[0] * v[0] + v[1] * v[1] + v[2] * v[2]

    def is_pole(self, lat, deg):
        return abs(abs(self.rad(lat, deg)) - math.pi / 2) < 1e-15


def replay(module, case, mode, inputs):
    """-> (status, list of failures); status in 'fail', 'pass', 'skip', 'error'"""
    import warnings
    here = os.path.dirname(os.path.abspath(__file__))
    if here not in sys.path:
        sys.path.insert(0, here)
    m = importlib.import_module(module)
    fn = [c for c in m.CASES.cases if c.name == case][0]
    k = KC(mode, inputs)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            fn.fn(Pkg(), k)
        except Skip as e:
            if not k.failed:
                return "skip", [str(e)]
        except KeyError as e:
            if e.args and e.args[0] not in inputs and not k.failed:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                if tb[-1].filename.endswith("concrete.py"):
                    return "skip", [f"input {e} missing"]
            k.failed.append(f"raised KeyError: {e}")
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            src = [f for f in tb if "/pymap3d/" in f.filename]
            if not src and not k.failed and not isinstance(e, (TypeError, ValueError)):
                return "error", [f"{type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}"]
            k.failed.append(f"raised {type(e).__name__}: {e}" + (f" at {os.path.basename(src[-1].filename)}:{src[-1].name}" if src else ""))
    return ("fail" if k.failed else "pass"), k.failed


def main():
    module, case, mode, path = sys.argv[1:5]
    sys.meta_path.insert(0, NoAstropy())
    with open(path) as f:
        d = json.load(f)
    sets = d["inputs"] if isinstance(d["inputs"], list) else [d["inputs"]]
    if len(sys.argv) > 5:
        sets = [sets[int(sys.argv[5])]]
    out = []
    for s in sets:
        st, why = replay(module, case, mode, s)
        out.append([st, why])
    print(json.dumps(out))
    if any(st == "fail" for st, _ in out):
        sys.exit(1)
    sys.exit(4 if any(st == "error" for st, _ in out) else 0)


if __name__ == "__main__":
    main()

"""Arrays behave as element-wise scalars; arguments are never modified (C24); degree and radian forms agree (C09)."""
from reg import Registry
import h_comp
import h_frames
import h_geod
from h_frames import ecefpoint, height, local

CASES = Registry()
BOTH = ("numpy", "stdlib")


def faketime():
    from vsym import fakedt
    return fakedt.overrides()


def arg(k, kind, name, deg):
    if kind in ("lat", "el"):
        return k.latitude(name, deg)
    if kind in ("lon", "yaw", "pitch", "roll", "heading"):
        return k.angle(name, deg=deg)
    if kind == "az":
        return k.angle(name, 0, 2, deg)
    if kind == "r":
        return k.real(name, 0, sample=lambda g, s: abs(local(g, s)))
    if kind == "n":
        return k.real(name, -1, 1, sample=lambda g, s: g.uniform(-1, 1))
    if kind == "tilt":
        return k.angle(name, 0, 1, deg)
    if kind == "alt":
        return k.real(name, 0, sample=lambda g, s: g.uniform(0, 1e6))
    if kind == "h":
        return k.real(name, sample=height)
    if kind == "X":
        return k.real(name, sample=ecefpoint)
    if kind == "L":
        return k.real(name, sample=local)
    raise KeyError(kind)


GEO, ENU, ECEF, OBS, AER, ATT = "lat lon h", "L L L", "X X X", "lat lon h", "az el r", "yaw pitch roll"
# function -> (kinds of its positional arguments, takes an ellipsoid, angle outputs, extra keywords)
TABLE = {
    "ecef.geodetic2ecef": (GEO, True, ""),
    "ecef.ecef2enuv": (f"{ECEF} lat lon", False, ""),
    "ecef.ecef2enu": (f"{ECEF} {OBS}", True, ""),
    "ecef.enu2uvw": (f"{ENU} lat lon", False, ""),
    "ecef.uvw2enu": (f"{ENU} lat lon", False, ""),
    "ecef.enu2ecef": (f"{ENU} {OBS}", True, ""),
    "enu.aer2enu": (AER, False, ""),
    "enu.geodetic2enu": (f"{GEO} {OBS}", True, ""),
    "enu.enu2ecefv": (f"{ENU} lat lon", False, ""),
    "ned.aer2ned": (AER, False, ""),
    "ned.ned2ecef": (f"{ENU} {OBS}", True, ""),
    "ned.ecef2ned": (f"{ECEF} {OBS}", True, ""),
    "ned.geodetic2ned": (f"{GEO} {OBS}", True, ""),
    "ned.ecef2nedv": (f"{ECEF} lat lon", False, ""),
    "nwu.aer2nwu": (AER, False, ""),
    "nwu.nwu2ecef": (f"{ENU} {OBS}", True, ""),
    "nwu.ecef2nwu": (f"{ECEF} {OBS}", True, ""),
    "nwu.geodetic2nwu": (f"{GEO} {OBS}", True, ""),
    "nwu.ecef2nwuv": (f"{ECEF} lat lon", False, ""),
    "nwu.nwu2ecefv": (f"{ENU} lat lon", False, ""),
    "sez.aer2sez": (AER, False, ""),
    "sez.sez2ecef": (f"{ENU} {OBS}", True, ""),
    "sez.ecef2sez": (f"{ECEF} {OBS}", True, ""),
    "sez.geodetic2sez": (f"{GEO} {OBS}", True, ""),
    "sez.ecef2sezv": (f"{ECEF} lat lon", False, ""),
    "sez.sez2ecefv": (f"{ENU} lat lon", False, ""),
    "aer.aer2ecef": (f"{AER} {OBS}", True, ""),
    "dca.enu2dca": (f"{ENU} heading", False, ""),
    "dca.dca2enu": (f"{ENU} heading", False, ""),
    "dca.ned2dca": (f"{ENU} heading", False, ""),
    "dca.dca2ned": (f"{ENU} heading", False, ""),
    "dca.aer2dca": (f"{AER} heading", False, ""),
    "dca.ecef2dca": (f"{ECEF} {OBS} heading", True, ""),
    "dca.dca2ecef": (f"{ENU} {OBS} heading", True, ""),
    "dca.geodetic2dca": (f"{GEO} {OBS} heading", True, ""),
    "rcurve.parallel": ("lat", True, ""),
    "rcurve.meridian": ("lat", True, ""),
    "rcurve.transverse": ("lat", True, ""),
    "rcurve.geocentric_radius": ("lat", True, ""),
    "rsphere.curve": ("lat", True, ""),
    "latitude.geodetic2geocentric": ("lat alt", True, "0"),
    "latitude.geocentric2geodetic": ("lat alt", True, "0"),
    "latitude.geodetic2parametric": ("lat", True, "0"),
    "latitude.parametric2geodetic": ("lat", True, "0"),
    "latitude.geodetic2isometric": ("lat", True, "", dict(scaled="0")),
    "latitude.geodetic2rectifying": ("lat", True, "0"),
    "latitude.rectifying2geodetic": ("lat", True, "0"),
    "latitude.geodetic2authalic": ("lat", True, "0"),
    "latitude.authalic2geodetic": ("lat", True, "0"),
    "latitude.conformal2geodetic": ("lat", True, "0"),
    "latitude.geodetic2conformal": ("lat", True, "0"),
    "spherical.geodetic2spherical": ("lat lon alt", True, "01"),
    "haversine.anglesep": ("lon lat lon lat", False, "0"),
    "haversine.anglesep_meeus": ("lon lat lon lat", False, "0"),
    "lox.departure": ("lon lon lat", True, ""),
    "lox.meridian_arc": ("lat lat", True, ""),
    "lox.meridian_dist": ("lat", True, ""),
    "nvector.geodetic2nvector": ("lat lon", False, ""),
    "nvector.nvector2geodetic": ("n n n", False, "01"),
    "nvector.ecef2nvector": (ECEF, True, "", dict(stubs=("geodetic",))),
    "nvector.nvector2ecef": ("n n n h", True, ""),
    "nvector.nvector_distance": ("n n n n n n", False, "", dict(deg=False)),
    "nvector.nvector_cross_track_distance": ("n n n n n n n n n", False, "", dict(deg=False)),
    "utils.cart2pol": ("L L", False, "0", dict(deg=False)),
    "utils.pol2cart": ("lon r", False, "", dict(deg=False)),
    "utils.cart2sph": ("L L L", False, "01", dict(deg=False)),
    "utils.sph2cart": ("lon lat r", False, "", dict(deg=False)),
    "enu.enu2geodetic": (f"{ENU} {OBS}", True, "01", dict(stubs=("geodetic",))),
    "ned.ned2aer": (ENU, False, "01", dict(stubs=("aer",))),
    "ned.ned2geodetic": (f"{ENU} {OBS}", True, "01", dict(stubs=("geodetic",))),
    "nwu.nwu2aer": (ENU, False, "01", dict(stubs=("aer",))),
    "nwu.nwu2geodetic": (f"{ENU} {OBS}", True, "01", dict(stubs=("geodetic",))),
    "sez.sez2aer": (ENU, False, "01", dict(stubs=("aer",))),
    "sez.sez2geodetic": (f"{ENU} {OBS}", True, "01", dict(stubs=("geodetic",))),
    "dca.dca2aer": (f"{ENU} heading", False, "01", dict(stubs=("aer",))),
    "dca.dca2geodetic": (f"{ENU} {OBS} heading", True, "01", dict(stubs=("geodetic",))),
    "aer.ecef2aer": (f"{ECEF} {OBS}", True, "01", dict(stubs=("aer",))),
    "aer.geodetic2aer": (f"{GEO} {OBS}", True, "01", dict(stubs=("aer",))),
    "aer.aer2geodetic": (f"{AER} {OBS}", True, "01", dict(stubs=("geodetic",))),
    "latitude.isometric2geodetic": ("lat", True, "0"),
}
STUBS = {"geodetic": ("ecef.ecef2geodetic", 3, (0, 1)), "aer": ("enu.enu2aer", 3, (0, 1))}


def option(name, key, default):
    e = TABLE[name]
    return e[3].get(key, default) if len(e) > 3 else default


def listed(r):
    return list(r) if isinstance(r, tuple) else [r]


def resolve(P, name):
    m, f = name.split(".")
    return getattr(getattr(P, m), f)


def call(P, k, name, vals, ell, deg):
    f = resolve(P, name)
    kinds, takes = TABLE[name][:2]
    if not option(name, "deg", True):
        return listed(f(*vals))
    return listed(f(*vals, ell, deg=deg) if takes else f(*vals, deg=deg))


def special(x):
    return isinstance(x, float) and (x != x or x in (float("inf"), float("-inf")))


def same(k, name, g, w, angular, deg):
    g, w = [x.reshape(-1)[0] if getattr(x, "size", 0) == 1 and hasattr(x, "reshape") else x for x in (g, w)]
    if special(g) or special(w):      # undefined or infinite for the scalar exactly when for the element
        k.true(name, special(g) and special(w) and (g == w or (g != g and w != w)))
    elif angular:
        k.ang(name, g, w, deg, tol=1e-8)
    else:
        k.eq(name, g, w, tol=1e-12, scale=1e7)


def elementwise(name, which):
    """which: "all" = every argument an array of two, otherwise the index of the only array argument"""
    def h(P, k):
        kinds = TABLE[name][0].split()
        for st in option(name, "stubs", ()):
            k.stub_elementwise(P, *STUBS[st])
        ell = k.ellipsoid(P)[0] if TABLE[name][1] else None
        d = option(name, "deg", True)
        pairs = []
        for i, kd in enumerate(kinds):
            a = arg(k, kd, f"p{i}", d)
            pairs.append((a, arg(k, kd, f"q{i}", d) if which == "all" or which == i else a))
        vals = [k.arr(a, b) if which == "all" or which == i else a for i, (a, b) in enumerate(pairs)]
        if which == "all":
            vals = [v.reshape(2, 1) for v in vals]
        keep = [list(v.reshape(-1)) if hasattr(v, "reshape") and which in ("all", i) else None for i, v in enumerate(vals)]
        one = [call(P, k, name, [p[e] for p in pairs], ell, True) for e in (0, 1)]
        out = call(P, k, name, vals, ell, True)
        k.true("same number of outputs", len(out) == len(one[0]))
        for j, o in enumerate(out):
            shape = tuple(getattr(o, "shape", ()))
            if shape == ():        # an output that depends on scalar arguments only
                for e in (0, 1):
                    same(k, f"output {j} is element {e}", o, one[e][j], str(j) in TABLE[name][2], d)
                continue
            if name in SQUEEZED:
                k.true(f"output {j} has two elements", o.size == 2)
            else:
                k.true(f"output {j} keeps the shape", shape == ((2, 1) if which == "all" else (2,)))
            flat = o.reshape(-1)
            for e in (0, 1):
                same(k, f"output {j}[{e}]", flat[e], one[e][j], str(j) in TABLE[name][2], d)
        for v, old in zip(vals, keep):
            if old is not None:
                now = list(v.reshape(-1))
                for a, b in zip(now, old):
                    k.true("argument unchanged", a is b if k.symbolic else a == b)
    return h


SQUEEZED = {"lox.loxodrome_inverse", "lox.loxodrome_direct"}
for _n in TABLE:
    CASES.case("C24", ("numpy",), name=f"{_n}", bounds="arguments of shape (2, 1), all values in the domain, all ellipsoids")(elementwise(_n, "all"))
    if len(TABLE[_n][0].split()) > 1:
        CASES.case("C24", ("numpy",), name=f"{_n} broadcast", bounds="first argument of shape (2,), the others scalars; all values in the domain, all ellipsoids")(elementwise(_n, 0))


ANGLES = ("lat", "lon", "el", "az", "yaw", "pitch", "roll", "heading", "tilt")


def units(name):
    """the same call in degrees and in radians"""
    def h(P, k):
        kinds, takes, angular = TABLE[name][:3]
        for st in option(name, "stubs", ()):
            k.stub_elementwise(P, *STUBS[st])
        ell = k.ellipsoid(P)[0] if takes else None
        vals = [arg(k, kd, f"p{i}", False) for i, kd in enumerate(kinds.split())]
        degs = [k.from_rad(v, True) if kd in ANGLES else v for v, kd in zip(vals, kinds.split())]
        if name.startswith("haversine"):
            u, v = [[k.cos(q) * k.cos(p), k.cos(q) * k.sin(p), k.sin(q)] for p, q in (vals[:2], vals[2:])]
            k.fact(k.norm2([x + y for x, y in zip(u, v)]))
            k.fact(k.norm2([x - y for x, y in zip(u, v)]))
        r, d = call(P, k, name, vals, ell, False), call(P, k, name, degs, ell, True)
        f = resolve(P, name)
        e = listed(f(*degs, ell) if takes else f(*degs))       # degrees are the default
        k.true("same number of outputs", len(r) == len(d) == len(e))
        for i, (x, y, z) in enumerate(zip(r, d, e)):
            if str(i) in angular or str(i) in option(name, "scaled", ""):
                x = x if special(x) else k.from_rad(x, True)
            same(k, f"output {i}", y, x, str(i) in angular, True)
            same(k, f"output {i} by default", z, x, str(i) in angular, True)
    return h


for _n in TABLE:
    if option(_n, "deg", True):
        CASES.case("C09", BOTH, name=f"{_n} units", bounds="all values in the domain, all ellipsoids")(units(_n))


def reuse(prop, module, *names):
    """a case registered for another property that decides this one as well"""
    for n in names:
        c = [x for x in module.CASES.cases if x.name == n][0]
        CASES.case(prop, c.modes, name=f"{module.__name__[2:]}_{n}", tier=c.tier, **c.opts)(c.fn)


reuse("C24", h_frames, "enu2aer_array_deg", "enu2aer_array_rad")
reuse("C24", h_geod, "intersection_array_deg", "intersection_array_rad")
reuse("C24", h_comp, "arrays")

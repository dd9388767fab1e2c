"""C10: geocentric spherical coordinates"""
from reg import Registry
from h_frames import height
from h_lox import f64

CASES = Registry()
case = CASES.case
BOTH = ("numpy", "stdlib")


def both(modes=BOTH, **o):
    def deco(fn):
        for deg in (True, False):
            case("C10", modes, name=fn.__name__ + ("_deg" if deg else "_rad"), **o)(lambda P, k, deg=deg: fn(P, k, deg))
        return fn
    return deco


@both()
def to_spherical(P, k, deg):
    """the spherical coordinates of the Cartesian position, any ellipsoid"""
    ell, a, b = k.ellipsoid(P)
    lat, lon, alt = k.latitude("lat", deg), k.angle("lon", deg=deg), k.real("h", sample=height)
    p, l = k.rad(lat, deg), k.rad(lon, deg)
    s, c = k.sin(p), k.cos(p)
    N = a * a / k.sqrt(a * a * c * c + b * b * s * s)
    rho, z = (N + alt) * c, (N * (b / a) * (b / a) + alt) * s
    k.assume(rho * rho + z * z > 0)
    if k.symbolic:
        R = k.sqrt(rho * rho + z * z)    # true of all real numbers; spares the solver the domain of asin
        k.assume(R >= z)
        k.assume(R + z >= 0)
    got = P.spherical.geodetic2spherical(lat, lon, alt, ell, deg)
    k.true("three outputs", len(got) == 3)
    sl, lo, r = got
    sc = a + abs(alt)
    k.eq("radius", r * r, rho * rho + z * z, scale=sc * sc)
    k.ge("radius not negative", r, 0)
    q = k.rad(sl, deg)
    k.eq("height above the equator", r * k.sin(q), z, scale=sc)
    k.ge("spherical latitude within the poles", k.cos(q), 0)
    k.eq("longitude", lo, lon)


@both()
def from_sphere(P, k, deg):
    """on a sphere the two latitudes are the same"""
    a = k.real("a", 0, lo_open=True, sample=lambda g, s: 6.4e6)
    ell = P.ellipsoid.Ellipsoid(a, a)
    lat, lon, r = k.latitude("lat", deg), k.angle("lon", deg=deg), k.real("r", 0, lo_open=True, sample=lambda g, s: 6.4e6 * (1 + g.random()))
    got = P.spherical.spherical2geodetic(lat, lon, r, ell, deg)
    k.true("three outputs", len(got) == 3)
    k.ang("latitude", got[0], lat, deg)
    k.eq("longitude", got[1], lon)
    k.eq("altitude", got[2], r - a, scale=a)


NEAR = [1e-4, 3e-4, 1e-3, 3e-3, 0.01, 0.03, 0.1, 0.3, 1, 2.5, 5]
LATS = NEAR + [10 + 7.5 * i for i in range(10)] + [83, 86, 88, 89, 89.5, 89.8, 89.95]
ALTS = [-5000, 0, 5000, 50000, 400000, 2e6, 8e6, 3.6e7]


def inverse(P, k, lat, alt, a, e2, ell, atol=1e-3, latol=1e-8, pole=False):
    p = k.rad(lat, True)
    s, c = (k.cos(p), k.sin(p)) if pole else (k.sin(p), k.cos(p))
    N = a / k.sqrt(1 - e2 * s * s)
    rho, z = (N + alt) * c, (N * (1 - e2) + alt) * s
    r = k.sqrt(rho * rho + z * z)
    if pole:
        lat = 90 - lat
        sl = 90 - k.atan2(rho, z) * (180 / k.pi)
    else:
        sl = k.atan2(z, rho) * (180 / k.pi)
    x = f64(k, lat, alt)
    sp, lo, h = P.spherical.geodetic2spherical(x[0], 37.0, x[1], *ell)
    k.eq("spherical latitude", sp, sl, tol=0, atol=latol)
    k.eq("radius", h, r, tol=0, atol=atol)
    k.ang("longitude", lo, 37.0, deg=True, tol=1e-10)
    for sg in (1, -1):
        x = f64(k, sg * sl, r)
        la, lo, h = P.spherical.spherical2geodetic(x[0], 37.0, x[1], *ell)
        k.eq("latitude", la, sg * lat, tol=0, atol=latol)
        k.eq("altitude", h, alt, tol=0, atol=atol)
        k.ang("longitude", lo, 37.0, deg=True, tol=1e-10)
        x = f64(k, sg * k.rad(sl, True), r)
        la, lo, h = P.spherical.spherical2geodetic(x[0], 0.25, x[1], *ell, deg=False)
        k.eq("latitude (radians)", la, sg * k.rad(lat, True), tol=0, atol=latol / 50)
        k.eq("altitude (radians)", h, alt, tol=0, atol=atol)
        k.ang("longitude (radians)", lo, 0.25, tol=1e-10)


@case("C10", modes=BOTH, engine="boxes", order=8, batch=192, cost=4, shards=2, vars=[dict(name="lat", breaks=LATS), dict(name="alt", breaks=ALTS)],
      bounds="WGS84, latitude 0.0001 to 89.95 degrees either side, altitude -5 to 36000 km")
def from_spherical(P, k):
    ell = P.ellipsoid.Ellipsoid.from_name("wgs84")
    a, b = ell.semimajor_axis, ell.semiminor_axis
    inverse(P, k, k.var("lat"), k.var("alt"), a, 1 - (b / a) * (b / a), ())


def _any(P, k):
    e, a = k.var("e"), 6.4e6
    inverse(P, k, k.var("lat"), k.var("alt"), a, e * e, (P.ellipsoid.Ellipsoid(a, a * k.sqrt(1 - e * e)),))


for _n, _t, _l, _a, _e in (("from_spherical_any", "quick", 0.1, 400000, 0.02), ("from_spherical_any_all", "thorough", 0.01, 3.6e7, 0.001)):
    case("C10", modes=BOTH, engine="boxes", name=_n, tier=_t, order=8, batch=192, cost=8, shards=2 if _t == "quick" else 8, time_limit_thorough=5000,
         vars=[dict(name="lat", breaks=[x for x in LATS if x >= _l]), dict(name="alt", breaks=[x for x in ALTS if x <= _a]),
               dict(name="e", breaks=[x for x in (0.001, 0.02, 0.035, 0.05, 0.083) if x >= _e])],
         bounds=f"any ellipsoid of eccentricity {_e} to 0.083, latitude {_l} to 89.95 degrees either side, altitude -5 to {_a / 1000:g} km")(_any)


TINY = [1e-9, 1e-8, 1e-7, 1e-6, 3e-6, 1e-5, 3e-5, 1e-4]


@case("C10", modes=BOTH, engine="boxes", order=6, batch=192, vars=[dict(name="lat", breaks=TINY), dict(name="alt", breaks=ALTS)],
      bounds="WGS84, 1e-9 to 0.0001 degree from the equator, altitude -5 to 36000 km, altitude to 0.1 m")
def from_spherical_near_equator(P, k):
    ell = P.ellipsoid.Ellipsoid.from_name("wgs84")
    a, b = ell.semimajor_axis, ell.semiminor_axis
    inverse(P, k, k.var("lat"), k.var("alt"), a, 1 - (b / a) * (b / a), (ell,), atol=0.1)


@case("C10", modes=BOTH, engine="boxes", order=6, batch=192, vars=[dict(name="colat", breaks=[1e-3, 3e-3, 0.01, 0.025, 0.055]), dict(name="alt", breaks=ALTS)],
      bounds="WGS84, 0.001 to 0.055 degree from the poles, altitude -5 to 36000 km, altitude to 0.1 m, latitude to 1e-6 degree")
def from_spherical_near_poles(P, k):
    ell = P.ellipsoid.Ellipsoid.from_name("wgs84")
    a, b = ell.semimajor_axis, ell.semiminor_axis
    inverse(P, k, k.var("colat"), k.var("alt"), a, 1 - (b / a) * (b / a), (ell,), atol=0.1, latol=1e-6, pole=True)


@both()
def on_the_axes(P, k, deg):
    """the equator and the poles of any ellipsoid with b/a at least sqrt(3)/2"""
    ell, a, b = k.ellipsoid(P)
    k.assume(4 * b * b > 3 * a * a)
    h = k.real("h", 0, sample=lambda g, s: 6.4e6 * g.random())
    q = 90 if deg else k.pi / 2
    lon = k.angle("lon", deg=deg)
    for lat, r in ((0, a), (q, b), (-q, b)):
        got = P.spherical.spherical2geodetic(lat, lon, r + h, ell, deg)
        k.ang(f"latitude {lat}", got[0], lat, deg)
        k.eq("longitude", got[1], lon)
        k.eq("altitude", got[2], h, scale=a)
        got = P.spherical.geodetic2spherical(lat, lon, h, ell, deg)
        k.ang(f"spherical latitude {lat}", got[0], lat, deg)
        k.eq("longitude", got[1], lon)
        k.eq("radius", got[2], r + h, scale=a)

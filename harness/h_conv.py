"""C02: Cartesian to geodetic coordinates, against the exact forward conversion (enclosure engine)"""
from reg import Registry

CASES = Registry()
case = CASES.case
BOTH = ("numpy", "stdlib")
UP = [0.0005, 0.003, 0.018, 0.1, 0.6, 3.6, 20, 100, 500, 1500, 4000]
ALTS = [-5000, -3000] + [-x for x in reversed(UP[:-1])] + UP + [9000, 20000, 40000, 80000, 160000, 280000, 400000]
HIGH = [400000, 1e6, 2e6, 4e6, 8e6, 1.6e7, 3.6e7]
LONS = [-180 + 15 * i for i in range(25)]
LATS = [-89.99, -89.98, -89.96, -89.92, -89.85, -89.7, -89.4, -89, -88, -86, -82, -75, -67.5, -60, -52.5, -45, -37.5, -30, -22.5, -15, -7.5, 0]
LATS = LATS + [-x for x in reversed(LATS[:-1])]


def position(k, lat, lon, alt, a, b):
    """the definition of geodetic coordinates"""
    p, l = k.rad(lat, True), k.rad(lon, True)
    s, c = k.sin(p), k.cos(p)
    N = a * a / k.sqrt(a * a * c * c + b * b * s * s)
    return (N + alt) * c * k.cos(l), (N + alt) * c * k.sin(l), (N * ((b / a) * (b / a)) + alt) * s


def check(P, k, lat, lon, alt, ell, latol=1e-8):
    x, y, z = position(k, lat, lon, alt, ell.semimajor_axis, ell.semiminor_axis)
    if k.numpy and not k.symbolic:
        x, y, z = [k.np.float64(t) for t in (x, y, z)]
    la, lo, al = P.ecef.ecef2geodetic(x, y, z, ell)
    k.eq("latitude", la, lat, tol=0, atol=latol)
    k.eq("altitude", al, alt, tol=0, atol=1e-3)
    k.ang("longitude", lo, lon, deg=True, tol=1.7e-11, scale=0.05 / k.cos(k.rad(lat, True)))


for _name, _modes in (("wgs84", BOTH), ("grs80", ("numpy",)), ("moon", ("numpy",))):
    def _mk(name):
        def f(P, k):
            check(P, k, k.var("lat"), k.var("lon"), k.var("alt"), P.ellipsoid.Ellipsoid.from_name(name))
        return f
    case("C02", modes=_modes, engine="boxes", name=f"inverse_{_name}", order=10, batch=192, cost=9, shards=8, tier="quick" if _name == "wgs84" else "thorough",
         vars=[dict(name="lat", breaks=LATS), dict(name="lon", breaks=LONS), dict(name="alt", breaks=ALTS)],
         bounds=f"ellipsoid {_name}, latitude at most 89.99 degrees")(_mk(_name))


# elsewhere on the globe: close to the poles, on the axis, in the plane of the equator, in high orbit
SOME = [-5000, -1000, -10, 10, 1000, 20000, 120000, 400000]
COLAT = [1e-6 * 1.8 ** i for i in range(16)] + [0.0105]
LON8 = [-180 + 45 * i for i in range(9)]


@case("C02", modes=BOTH, engine="boxes", order=8, batch=192, cost=3, vars=[dict(name="colat", breaks=COLAT), dict(name="lon", breaks=LON8),
      dict(name="alt", breaks=SOME[4:])], bounds="ellipsoid WGS84, 1e-6 to 0.01 degrees from the north and the south pole")
def inverse_near_poles(P, k):
    c, lon, alt = k.var("colat"), k.var("lon"), k.var("alt")
    ell = P.ellipsoid.Ellipsoid.from_name("wgs84")
    a, b = ell.semimajor_axis, ell.semiminor_axis
    p, l = k.rad(c, True), k.rad(lon, True)
    s, co = k.cos(p), k.sin(p)
    N = a * a / k.sqrt(a * a * co * co + b * b * s * s)
    x, y, z = (N + alt) * co * k.cos(l), (N + alt) * co * k.sin(l), (N * ((b / a) * (b / a)) + alt) * s
    if k.numpy and not k.symbolic:
        x, y, z = [k.np.float64(t) for t in (x, y, z)]
    for sg in (1, -1):
        la, lo, al = P.ecef.ecef2geodetic(x, y, sg * z, ell)
        k.eq("latitude", la, sg * (90 - c), tol=0, atol=1e-8)
        k.eq("altitude", al, alt, tol=0, atol=1e-3)
        k.ang("longitude", lo, lon, deg=True, tol=1e-10, scale=1)


@case("C02", modes=BOTH, engine="boxes", order=4, batch=64, vars=[dict(name="alt", breaks=[-6e6, -1e6, -5000, 0, 1000, 1e6, 3.6e7, 4e8])],
      bounds="the axis of rotation, both poles, three ellipsoids")
def inverse_on_axis(P, k):
    alt = k.var("alt")
    for name in ("wgs84", "grs80", "mars"):
        ell = P.ellipsoid.Ellipsoid.from_name(name)
        b = ell.semiminor_axis
        if name == "mars" and k.symbolic is False and alt < -3e6:
            continue
        if name == "mars":
            alt = alt * 0.5
        for sg in (1, -1):
            z = sg * (alt + b)
            zero = 0.0
            if k.numpy and not k.symbolic:
                z, zero = k.np.float64(z), k.np.float64(0)
            la, lo, al = P.ecef.ecef2geodetic(zero, zero, z, ell)
            k.eq("latitude", la, sg * 90, tol=0, atol=1e-8)
            k.eq("altitude", al, alt, tol=0, atol=1e-3)


@case("C02", modes=BOTH, engine="boxes", order=8, batch=64, vars=[dict(name="lon", breaks=LONS), dict(name="alt", breaks=ALTS + HIGH[1:])],
      bounds="the plane of the equator (z = 0), ellipsoid WGS84")
def inverse_in_equator_plane(P, k):
    lon, alt = k.var("lon"), k.var("alt")
    ell = P.ellipsoid.Ellipsoid.from_name("wgs84")
    l = k.rad(lon, True)
    x, y, z = (ell.semimajor_axis + alt) * k.cos(l), (ell.semimajor_axis + alt) * k.sin(l), 0.0
    if k.numpy and not k.symbolic:
        x, y, z = [k.np.float64(t) for t in (x, y, z)]
    la, lo, al = P.ecef.ecef2geodetic(x, y, z, ell)
    k.eq("latitude", la, 0, tol=0, atol=1e-8)
    k.eq("altitude", al, alt, tol=0, atol=1e-3)
    k.ang("longitude", lo, lon, deg=True, tol=1e-10)


@case("C02", modes=("numpy",), engine="boxes", order=10, batch=192, cost=4, shards=4, vars=[dict(name="lat", breaks=[x for x in LATS if abs(x) <= 89]), dict(name="lon", breaks=LONS),
      dict(name="alt", breaks=HIGH)], bounds="ellipsoid WGS84, orbits of 400 to 36000 km, latitude within 1.3e-4 degrees")
def inverse_high(P, k):
    check(P, k, k.var("lat"), k.var("lon"), k.var("alt"), P.ellipsoid.Ellipsoid.from_name("wgs84"), latol=1.3e-4)


@case("C02", modes=BOTH, engine="boxes", tier="finding", order=8, vars=[dict(name="lat", breaks=LATS), dict(name="lon", breaks=LON8), dict(name="alt", breaks=HIGH)])
def inverse_high_strict(P, k):
    """the tolerance of low altitudes in high orbit: a known finding"""
    check(P, k, k.var("lat"), k.var("lon"), k.var("alt"), P.ellipsoid.Ellipsoid.from_name("wgs84"))


@case("C02", modes=("numpy",), engine="boxes", order=8, batch=64, vars=[dict(name="lat", breaks=[-80, -70, -60, -50, -40, -30]), dict(name="h1", breaks=[-5000, -1500, -500, -100]),
      dict(name="h2", breaks=[100, 500, 3000, 20000])], bounds="arrays of points below and above the ellipsoid, at a pole and in the plane of the equator")
def inverse_of_arrays(P, k):
    lat, h1, h2 = k.var("lat"), k.var("h1"), k.var("h2")
    ell = P.ellipsoid.Ellipsoid.from_name("wgs84")
    a, b = ell.semimajor_axis, ell.semiminor_axis
    pts = [position(k, lat, 25, h1, a, b), position(k, -lat, -170, h2, a, b), (0.0, 0.0, -(b + h2)), (a + h2, 0.0, 0.0), (0.0, 0.0, b + h1)]
    want = [(lat, 25, h1), (-lat, -170, h2), (-90, None, h2), (0, 0, h2), (90, None, h1)]
    la, lo, al = P.ecef.ecef2geodetic(*[k.arr(*[p[i] for p in pts]) for i in range(3)], ell)
    for i, (p, l, h) in enumerate(want):
        k.eq(f"latitude {i}", la[i], p, tol=0, atol=1e-8)
        k.eq(f"altitude {i}", al[i], h, tol=0, atol=1e-3)
        if l is not None:
            k.ang(f"longitude {i}", lo[i], l, deg=True, tol=1e-10)

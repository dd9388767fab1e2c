"""C16: loxodromes, meridian arcs, departures and mean positions; C10: spherical coordinates (enclosure engine)"""
from reg import Registry
from h_series import integral

CASES = Registry()
case = CASES.case
BOTH = ("numpy", "stdlib")
ECC = [0.002, 0.02, 0.05, 0.083]
TURN = 6.283185307179586


def f64(k, *xs):
    """scalars of the library mode, for replays"""
    return [k.np.float64(x) if k.numpy and not k.symbolic else x for x in xs]


GL6 = [(-0.932469514203152, 0.17132449237917036), (-0.6612093864662645, 0.36076157304813861), (-0.2386191860831969, 0.46791393457269104)]
GL6 = GL6 + [(-x, w) for x, w in GL6]


def shortarc(k, p, t, a, e2):
    """length of the meridian from latitude p to p + t (radians), t up to 45 degrees"""
    h = 0.5 * t
    r = 0
    for x, w in GL6:
        s = k.sin(p + h * (1 + x))
        r = r + w * (1 - e2 * s * s) ** (-1.5)
    return a * (1 - e2) * h * r


def arc(k, p, q, a, e2):
    """length of the meridian from latitude p to q (radians)"""
    def dm(t):
        s = k.sin(t)
        return (1 - e2 * s * s) ** (-1.5)
    return a * (1 - e2) * integral(k, dm, p, q, 2)


def iso(k, p, e):
    """isometric latitude"""
    s = k.sin(p)
    return k.asinh(s / k.cos(p)) - e * k.atanh(e * s)


def ellip(P, k, name="wgs84"):
    ell = P.ellipsoid.Ellipsoid.from_name(name)
    a, b = ell.semimajor_axis, ell.semiminor_axis
    return ell, a, b, 1 - (b / a) * (b / a)


@case("C16", modes=BOTH, engine="boxes", order=6, vars=[dict(name="lat1", breaks=[-90, -45, 0, 45, 90]), dict(name="lat2", breaks=[-90, -45, 0, 45, 90]), dict(name="e", breaks=ECC)],
      bounds="any ellipsoid of eccentricity 0.002 to 0.083")
def meridian_arc(P, k):
    p, q, e = k.var("lat1"), k.var("lat2"), k.var("e")
    p, q = f64(k, p, q)
    a = 6378137.0
    ell = P.ellipsoid.Ellipsoid(a, a * k.sqrt(1 - e * e))
    d = arc(k, k.rad(p, True), k.rad(q, True), a, e * e)
    got = P.lox.meridian_arc(p, q, ell)
    k.eq("square of the length", got * got * 1e-7, d * d * 1e-7, tol=0, atol=0.02)
    r = P.lox.meridian_arc(k.rad(p, True), k.rad(q, True), ell, deg=False)
    k.eq("degrees and radians", r * r * 1e-7, got * got * 1e-7, tol=0, atol=0.02)
    d = arc(k, 0.0, k.rad(q, True), a, e * e)
    got = P.lox.meridian_dist(q, ell)
    k.eq("square of the length from the equator", got * got * 1e-7, d * d * 1e-7, tol=0, atol=0.02)


@case("C16", modes=BOTH, engine="boxes", order=6, vars=[dict(name="lat", breaks=[-85, -45, 0, 45]), dict(name="t", breaks=[1, 10, 20, 40]), dict(name="e", breaks=ECC)],
      bounds="any ellipsoid of eccentricity 0.002 to 0.083, latitudes 1 to 40 degrees apart")
def meridian_arc_sign(P, k):
    p, t, e = k.var("lat"), k.var("t"), k.var("e")
    p, t = f64(k, p, t)
    a = 6378137.0
    ell = P.ellipsoid.Ellipsoid(a, a * k.sqrt(1 - e * e))
    d = shortarc(k, k.rad(p, True), k.rad(t, True), a, e * e)
    k.eq("length", P.lox.meridian_arc(p, p + t, ell), d, tol=1e-8, atol=0.01)
    k.eq("length, southwards", P.lox.meridian_arc(p + t, p, ell), d, tol=1e-8, atol=0.01)
    r = P.lox.meridian_arc(k.rad(p, True), k.rad(p + t, True), ell, deg=False)
    k.eq("length, radians", r, d, tol=1e-8, atol=0.01)


LAT = [-78, -73, -67] + [-60 + 7.5 * i for i in range(17)] + [67, 73, 77]
DLAT = [0.1, 0.2, 0.5, 1, 2, 4, 7, 10, 15, 20, 26, 32, 38, 45]
AZ = [0.05, 10, 20, 30, 38, 46, 53, 60, 66, 71, 75, 79, 82, 84.5, 86.5, 88, 89, 89.5]


def _direct(down):
    def f(P, k):
        """a loxodrome from lat to lat + t (or back) at the angle az to the meridian"""
        lat, t, az = k.var("lat"), k.var("t"), k.var("az")
        ell, a, b, e2 = ellip(P, k)
        lat2 = lat + t
        k.assume(lat2 < 78)
        p, q, z = k.rad(lat, True), k.rad(lat2, True), k.rad(az, True)
        c = k.cos(z)
        e = k.sqrt(e2)
        dlon = (iso(k, q, e) - iso(k, p, e)) * (k.sin(z) / c) * (180 / k.pi)
        rng = shortarc(k, p, k.rad(t, True), a, e2) / c
        p, q = (lat2, lat) if down else (lat, lat2)
        course = [(sg, (180 - sg * az) if down else (az if sg > 0 else 360 - az)) for sg in (1, -1)]
        for sg, az12 in course:
            x = f64(k, p, 25.0, rng, az12)
            la, lo = P.lox.loxodrome_direct(*x, ell)
            k.eq("latitude of the end point", la, q, tol=0, atol=1e-7)
            k.ang("longitude of the end point", lo, 25 + sg * dlon, deg=True, tol=5e-9, scale=1 / c)
        k.assume(dlon < 150)
        for sg, az12 in course:
            x = f64(k, p, 25.0, q, 25 + sg * dlon)
            d, z = P.lox.loxodrome_inverse(*x, ell)
            k.eq("distance", d, rng, tol=1e-8, atol=0.01)
            k.ang("azimuth", z, az12, deg=True, tol=1e-8, scale=1)
            k.ge("azimuth not negative", z + 1e-9, 0)
            k.ge("azimuth below a full circle", 360 + 1e-9 - z, 0)
    return f


for _n, _d in (("up", False), ("down", True)):
    for _nm, _m, _t, _dl, _tier, _o in ((f"course_{_n}", ("numpy",), [x for x in DLAT if x >= 1], AZ, "quick", dict(shards=4, cost=8)),
                                        (f"course_{_n}_stdlib", ("stdlib",), [7, 10, 15, 20], [20, 30, 38, 46], "quick", {}),
                                        (f"course_{_n}_all", BOTH, DLAT, AZ, "thorough", dict(shards=4, cost=9))):
        case("C16", modes=_m, engine="boxes", name=_nm, order=9, batch=192, tier=_tier, time_limit_thorough=6000,
             vars=[dict(name="lat", breaks=LAT), dict(name="t", breaks=_t), dict(name="az", breaks=_dl)],
             bounds=f"WGS84, both ends within 78 degrees of the equator, {_t[0]} to {_t[-1]} degrees of latitude apart, course {_dl[0]} to {_dl[-1]} degrees from the meridian; the inverse up to 150 degrees of longitude",
             **_o)(_direct(_d))


@case("C16", modes=("numpy",), engine="boxes", order=9, batch=192, cost=5, vars=[dict(name="lat", breaks=[-60, -52, -45, -37, -30, -22, -15, -7, 0, 7, 15, 22, 30, 37, 45, 52, 60]),
      dict(name="d", breaks=[0.006, 0.02, 0.06, 0.2, 0.6]), dict(name="w", breaks=[0.001, 0.003, 0.01, 0.03, 0.1, 0.3])],
      bounds="WGS84, 0.006 to 0.6 degrees from a parallel, 0.001 to 0.3 radians long")
def nearly_along_a_parallel(P, k):
    lat, d, w = k.var("lat"), k.var("d"), k.var("w")
    ell, a, b, e2 = ellip(P, k)
    p, z = k.rad(lat, True), k.rad(d, True)
    sd, cd = k.sin(z), k.cos(z)
    t = w * sd
    m, v = 0, 0
    for x, g in GL6:
        f = p + (0.5 * (1 + x)) * t
        s, c = k.sin(f), k.cos(f)
        n = 1 - e2 * s * s
        m = m + g * n ** (-1.5)
        v = v + g / (n * c)
    rng, dlon = (0.5 * a * (1 - e2)) * w * m, (0.5 * (1 - e2)) * w * cd * v * (180 / k.pi)
    lat2 = lat + t * (180 / k.pi)
    for sg in (1, -1):
        az = 90 - d if sg > 0 else 270 + d
        x = f64(k, lat, 25.0, rng, az)
        la, lo = P.lox.loxodrome_direct(*x, ell)
        k.eq("latitude of the end point", la, lat2, tol=0, atol=1e-7)
        k.ang("longitude of the end point", lo, 25 + sg * dlon, deg=True, tol=1e-7, scale=1)
        x = f64(k, lat, 25.0, lat2, 25 + sg * dlon)
        r, z = P.lox.loxodrome_inverse(*x, ell)
        k.eq("distance", r, rng, tol=1e-7, atol=0.01)
        k.ang("azimuth", z, az, deg=True, tol=1e-8, scale=1)


@case("C16", modes=BOTH, engine="boxes", order=9, vars=[dict(name="lat", breaks=[-81] + LAT + [79, 81]), dict(name="dlon", breaks=[0.02, 1, 10, 45, 90, 135, 179.99])],
      bounds="WGS84, latitude up to 81 degrees, 0.02 to 179.99 degrees of longitude")
def along_a_parallel(P, k):
    lat, dlon = k.var("lat"), k.var("dlon")
    ell, a, b, e2 = ellip(P, k)
    p = k.rad(lat, True)
    s = k.sin(p)
    r = a * k.cos(p) / k.sqrt(1 - e2 * s * s)
    d = r * k.rad(dlon, True)
    for sg in (1, -1):
        for turn in (0, 360, -360):
            lon1, lon2 = 25.0, 25 + sg * dlon + turn
            got = P.lox.departure(*f64(k, lon1, lon2, lat), ell)
            k.eq("departure", got, d, tol=1e-9, atol=1e-4)
            x = f64(k, lat, lon1, lat, lon2)
            got, az = P.lox.loxodrome_inverse(*x, ell)
            k.eq("distance", got, d, tol=1e-9, atol=1e-3)
            k.ang("azimuth", az, sg * 90, deg=True, tol=1e-8)
        x = f64(k, lat, 25.0, d, 90.0 if sg > 0 else 270.0)
        la, lo = P.lox.loxodrome_direct(*x, ell)
        k.eq("the latitude is kept", la, lat, tol=0, atol=1e-7)
        k.ang("longitude of the end point", lo, 25 + sg * dlon, deg=True, tol=1e-8)
        x = f64(k, k.rad(lat, True), 0.5, d, k.pi / 2 if sg > 0 else 1.5 * k.pi)
        la, lo = P.lox.loxodrome_direct(*x, ell, deg=False)
        k.eq("the latitude is kept (radians)", la, p, tol=0, atol=2e-9)
        k.ang("longitude of the end point (radians)", lo, 0.5 + sg * k.rad(dlon, True), tol=1e-8)


@case("C16", modes=BOTH, engine="boxes", order=9, vars=[dict(name="lat", breaks=LAT), dict(name="t", breaks=[0.001, 0.1, 1, 4, 10])], bounds="WGS84, start within 78 degrees of the equator, 0.001 to 10 degrees of latitude")
def along_a_meridian(P, k):
    lat, t = k.var("lat"), k.var("t")
    ell, a, b, e2 = ellip(P, k)
    lat2 = lat + t
    d = shortarc(k, k.rad(lat, True), k.rad(t, True), a, e2)
    for p, q, az in ((lat, lat2, 0.0), (lat2, lat, 180.0)):
        for lon in (25.0, -170.0):
            x = f64(k, p, lon, q, lon)
            got, z = P.lox.loxodrome_inverse(*x, ell)
            k.eq("distance", got, d, tol=1e-9, atol=1e-3)
            k.ang("azimuth", z, az, deg=True, tol=1e-8)
            x = f64(k, p, lon, d, az)
            la, lo = P.lox.loxodrome_direct(*x, ell)
            k.eq("latitude of the end point", la, q, tol=0, atol=1e-7)
            k.ang("the longitude is kept", lo, lon, deg=True, tol=1e-8)


@case("C16", modes=BOTH, engine="boxes", order=7, vars=[dict(name="lat", breaks=[-60, -30, 0, 30, 60]), dict(name="dlon", breaks=[0.1, 5, 15, 30, 50, 75, 100, 125, 150, 179.99]),
      dict(name="lon", breaks=[-180, -90, 0, 90, 180], lin=True)], bounds="WGS84, ends 10 degrees of latitude apart, longitudes in any turn from -720 to 720 degrees")
def the_short_way(P, k):
    lat, lon, dlon = k.var("lat"), k.var("lon"), k.var("dlon")
    ell, a, b, e2 = ellip(P, k)
    p, q = k.rad(lat, True), k.rad(lat + 10, True)
    e = k.sqrt(e2)
    want = k.atan2(k.rad(dlon, True), iso(k, q, e) - iso(k, p, e)) * (180 / k.pi)
    d = shortarc(k, p, k.rad(10.0, True), a, e2) / k.cos(k.rad(want, True))
    for sg in (1, -1):
        for turn in (0, 360, -360):
            x = f64(k, lat, lon, lat + 10, lon + sg * dlon + turn)
            r, z = P.lox.loxodrome_inverse(*x, ell)
            k.eq("distance", r, d, tol=1e-8, atol=0.01)
            k.ang("azimuth", z, sg * want, deg=True, tol=1e-8)


@case("C16", modes=("numpy",), engine="boxes", order=8, vars=[dict(name="lat1", breaks=[-80, -60, -30, 0, 30, 60, 80]), dict(name="lat2", breaks=[-80, -60, -30, 0, 30, 60, 80]),
      dict(name="dlon", breaks=[0, 30, 60, 90])], bounds="WGS84, two points within 80 degrees of the equator and 90 degrees of longitude of each other")
def mean_position(P, k):
    lat1, lat2, dlon = k.var("lat1"), k.var("lat2"), k.var("dlon")
    ell, a, b, e2 = ellip(P, k)
    e = k.sqrt(e2)

    def q(s):
        return (1 - e2) * (s / (1 - e2 * s * s) + k.atanh(e * s) / e)
    q1 = q(1.0)
    v = [0, 0, 0]
    for la, lo in ((lat1, 0.0), (lat2, dlon)):
        sb = q(k.sin(k.rad(la, True))) / q1
        cb = k.sqrt(1 - sb * sb)
        l = k.rad(lo, True)
        v = [v[0] + cb * k.cos(l), v[1] + cb * k.sin(l), v[2] + sb]
    n = k.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    la, lo = P.lox.meanm(k.arr(lat1, lat2), k.arr(20.0, 20 + dlon), ell)
    k.ang("longitude of the mean", lo, 20 + k.atan2(v[1], v[0]) * (180 / k.pi), deg=True, tol=1e-8)
    s = q(k.sin(k.rad(la, True))) / q1
    k.eq("authalic latitude of the mean", s, v[2] / n, tol=0, atol=1e-8)


@case("C16", modes=BOTH, engine="boxes", order=4, vars=[dict(name="lat", breaks=[90.001, 180, 400]), dict(name="rng", breaks=[-1e7, -1e3, -1])], bounds="latitudes of 90.001 to 400 degrees either side, ranges of -10000 km to -1 m")
def out_of_range(P, k):
    lat, rng = k.var("lat"), k.var("rng")
    for s in (1, -1):
        k.raises("a latitude beyond the pole", ValueError, lambda: P.lox.loxodrome_direct(*f64(k, s * lat, 0.0, 1000.0, 45.0)))
    k.raises("a negative distance", ValueError, lambda: P.lox.loxodrome_direct(*f64(k, 10.0, 0.0, rng, 45.0)))

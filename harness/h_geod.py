"""Geodetic position, curvature, latitude, sphere radii, n-vector, line of sight (C01 C10 C11 C12 C13 C14 C15)."""
from reg import Registry
from h_frames import both_units, observer, vec3, height, axes, dot, ecefpoint

CASES = Registry()
BOTH = ("numpy", "stdlib")


def both(prop, modes=BOTH, **o):
    """one case per angle unit, registered here"""
    def deco(fn):
        for deg in (True, False):
            CASES.case(prop, modes, name=fn.__name__ + ("_deg" if deg else "_rad"), **o)(
                lambda P, k, deg=deg: fn(P, k, deg))
        return fn
    return deco


def geodetic(k, deg, tag=""):
    return k.latitude("lat" + tag, deg), k.angle("lon" + tag, -2, 2, deg), k.real("alt" + tag, sample=height)


# ---------------------------------------------------------------- C01
@both("C01", bounds="all latitudes in +-90 degrees, longitudes in +-360 degrees, altitudes, ellipsoids a>=b>0")
def foot_and_normal(P, k, deg):
    lat, lon, alt = geodetic(k, deg)
    ell, a, b = k.ellipsoid(P)
    s = 0 if k.symbolic else a + abs(alt)
    x, y, z = P.ecef.geodetic2ecef(lat, lon, 0, ell, deg=deg)
    E, N, U = axes(k, lat, lon, deg)
    k.eq("the foot is on the ellipsoid", (x * x + y * y) / (a * a) + z * z / (b * b), 1, scale=1)
    # gradient of the ellipsoid at the foot is a positive multiple of the geodetic up vector
    g = (x * (b / a) * (b / a), y * (b / a) * (b / a), z)
    k.eq("gradient has no east component", dot(g, E), 0, scale=s)
    k.eq("gradient has no north component", dot(g, N), 0, scale=s)
    k.gt("gradient points up", dot(g, U), 0)
    k.eq("no east component: the meridian plane", dot((x, y, z), E), 0, scale=s)
    k.ge("on the meridian half-plane", x * k.cos(k.rad(lon, deg)) + y * k.sin(k.rad(lon, deg)), 0, scale=s)
    p = P.ecef.geodetic2ecef(lat, lon, alt, ell, deg=deg)
    k.vec("the point is alt along the normal", p, [(x, y, z)[i] + alt * U[i] for i in range(3)], scale=s)


@both("C01", modes=("numpy",), bounds="arrays of two points; the scalar result per element; default ellipsoid")
def geodetic2ecef_array(P, k, deg):
    p, q = geodetic(k, deg), geodetic(k, deg, "2")
    cols = [k.arr(u, v) for u, v in zip(p, q)]
    got = P.ecef.geodetic2ecef(*cols, deg=deg)
    for i, w in enumerate((p, q)):
        want = P.ecef.geodetic2ecef(*w, P.ellipsoid.Ellipsoid(6378137.0, 6356752.31424518), deg=deg)
        k.vec(f"element {i}", [c[i] for c in got], want, scale=1e7)


@CASES.case("C01", BOTH, bounds="all longitudes, altitudes, ellipsoids at the poles and on the equator")
def poles_and_equator(P, k):
    lon, alt = k.angle("lon"), k.real("alt", sample=height)
    ell, a, b = k.ellipsoid(P)
    s = 0 if k.symbolic else a + abs(alt)
    k.vec("north pole", P.ecef.geodetic2ecef(90, k.from_rad(lon, True), alt, ell), (0, 0, b + alt), scale=s)
    k.vec("south pole", P.ecef.geodetic2ecef(-90, k.from_rad(lon, True), alt, ell), (0, 0, -b - alt), scale=s)
    k.vec("equator", P.ecef.geodetic2ecef(0, lon, alt, ell, deg=False), ((a + alt) * k.cos(lon), (a + alt) * k.sin(lon), 0), scale=s)


# ---------------------------------------------------------------- C13
@both("C13", bounds="all latitudes, ellipsoids a>=b>0")
def curvature(P, k, deg):
    lat = k.latitude("lat", deg)
    ell, a, b = k.ellipsoid(P)
    s, c = k.sin(k.rad(lat, deg)), k.cos(k.rad(lat, deg))
    R = P.rcurve
    w = k.sqrt(a * a * c * c + b * b * s * s)
    k.eq("transverse", R.transverse(lat, ell, deg=deg), a * a / w)
    k.eq("meridian", R.meridian(lat, ell, deg=deg), a * a * b * b / (w * w * w))
    k.eq("parallel", R.parallel(lat, ell, deg=deg), a * a / w * c, scale=a * 1e-3)
    x, y, z = P.ecef.geodetic2ecef(lat, 0, 0, ell, deg=deg)
    k.eq("parallel is the distance from the axis", R.parallel(lat, ell, deg=deg), x, scale=a * 1e-3)
    k.eq("geocentric radius is the distance from the centre", R.geocentric_radius(lat, ell, deg=deg), k.sqrt(x * x + z * z))
    if deg:
        k.eq("degrees are the default", R.meridian(lat, ell), R.meridian(lat, ell, deg=True))
        k.eq("WGS84 is the default", R.geocentric_radius(lat), R.geocentric_radius(lat, P.ellipsoid.Ellipsoid(6378137.0, 6356752.31424518)))
        W = P.ellipsoid.Ellipsoid(6378137.0, 6356752.31424518)
        k.eq("WGS84 is the default (transverse)", R.transverse(lat), R.transverse(lat, W))
        k.eq("WGS84 is the default (meridian)", R.meridian(lat), R.meridian(lat, W))
        k.eq("WGS84 is the default (parallel)", R.parallel(lat), R.parallel(lat, W), scale=1e4)


@both("C13", modes=("numpy",), bounds="arrays of two latitudes")
def curvature_arrays(P, k, deg):
    l1, l2 = k.latitude("lat", deg), k.latitude("lat2", deg)
    ell, a, b = k.ellipsoid(P)
    v = k.arr(l1, l2)
    for f in ("transverse", "meridian", "parallel", "geocentric_radius"):
        got = getattr(P.rcurve, f)(v, ell, deg=deg)
        for i, l in enumerate((l1, l2)):
            k.eq(f"{f}[{i}]", got[i], getattr(P.rcurve, f)(l, ell, deg=deg), scale=a * 1e-3)


# ---------------------------------------------------------------- C12 closed forms
@both("C12", bounds="all latitudes including poles, altitudes above the centre of curvature, ellipsoids")
def geocentric(P, k, deg):
    lat, alt = k.latitude("lat", deg), k.real("alt", 0, sample=lambda r, s: r.choice([0.0, 10 ** r.uniform(0, 8)]))
    ell, a, b = k.ellipsoid(P)
    L = P.latitude
    x, y, z = P.ecef.geodetic2ecef(lat, 0, alt, ell, deg=deg)
    g = L.geodetic2geocentric(lat, alt, ell, deg=deg)
    k.ang("geocentric latitude of the position", k.rad(g, deg), k.atan2(z, x))
    k.ang("geod2geoc is the same function", L.geod2geoc(lat, alt, ell, deg=deg), g, deg)
    g0 = L.geodetic2geocentric(lat, 0, ell, deg=deg)
    t = k.rad(lat, deg)
    k.eq("surface: b^2 tan(geodetic) = a^2 tan(geocentric)", k.sin(k.rad(g0, deg)) * k.cos(t) * a * a, k.cos(k.rad(g0, deg)) * k.sin(t) * b * b, scale=0 if k.symbolic else a * a)
    m = L.geodetic2geocentric(-lat, alt, ell, deg=deg)
    k.ang("odd", m, -g, deg)


@both("C12", bounds="all latitudes, ellipsoids")
def parametric(P, k, deg):
    lat = k.latitude("lat", deg)
    ell, a, b = k.ellipsoid(P)
    L = P.latitude
    x, y, z = P.ecef.geodetic2ecef(lat, 0, 0, ell, deg=deg)
    beta = L.geodetic2parametric(lat, ell, deg=deg)
    k.ang("the reduced latitude of the surface point", k.rad(beta, deg), k.atan2(z * a, x * b))
    k.ang("odd", L.geodetic2parametric(-lat, ell, deg=deg), -beta, deg)
    k.ang("inverse", L.parametric2geodetic(beta, ell, deg=deg), lat, deg)


@both("C12", bounds="all latitudes with |cos| > 1e-9, ellipsoids; asinh/atanh uninterpreted with their defining relations")
def isometric(P, k, deg):
    lat = k.latitude("lat", deg)
    ell, a, b = k.ellipsoid(P)
    e = ell.eccentricity
    t = k.rad(lat, deg)
    s, c = k.sin(t), k.cos(t)
    k.assume(c > 1e-6)
    q = P.latitude.geodetic2isometric(lat, ell, deg=deg)
    k.eq("definition", k.rad(q, deg), k.asinh(s / c) - e * k.atanh(e * s), scale=1)


@both("C12", bounds="the poles, all ellipsoids")
def isometric_poles(P, k, deg):
    ell, a, b = k.ellipsoid(P)
    q = 90.0 if deg else k.pi / 2
    k.eq("north", P.latitude.geodetic2isometric(q, ell, deg=deg), float("inf"))
    k.eq("south", P.latitude.geodetic2isometric(-q, ell, deg=deg), float("-inf"))
    k.eq("equator", P.latitude.geodetic2isometric(0.0, ell, deg=deg), 0, scale=1)


# ---------------------------------------------------------------- C14
@CASES.case("C14", BOTH, bounds="all ellipsoids a>=b>0; power, log and cube root uninterpreted / algebraic")
def means(P, k):
    ell, a, b = k.ellipsoid(P)
    R = P.rsphere
    f = ell.flattening
    k.eq("triaxial mean", R.triaxial(ell, method="mean"), (2 * a + b) / 3)
    k.eq("triaxial default", R.triaxial(ell), (2 * a + b) / 3)
    t = R.triaxial(ell, method="norm")
    k.eq("triaxial norm", t * t * t, a * a * b)
    k.eq("biaxial mean", R.biaxial(ell, method="mean"), (a + b) / 2)
    k.eq("biaxial default", R.biaxial(ell), (a + b) / 2)
    t2 = R.biaxial(ell, method="norm")
    k.eq("biaxial norm", t2 * t2, a * b)
    for n, v in (("triaxial", R.triaxial(ell)), ("biaxial", R.biaxial(ell)), ("triaxial norm", t), ("biaxial norm", t2)):
        k.ge(f"{n} at least b", v, b)
        k.ge(f"{n} at most a", a, v)
    for bad in ("Mean", "", "x"):
        k.raises("triaxial method", ValueError, lambda: R.triaxial(ell, method=bad))
        k.raises("biaxial method", ValueError, lambda: R.biaxial(ell, method=bad))


@CASES.case("C14", BOTH, bounds="all ellipsoids with b >= 0.9 a")
def volume(P, k):
    ell, a, b = k.ellipsoid(P)
    k.assume(b >= a * 0.9)
    v = P.rsphere.eqavol(ell)
    f = (a - b) / a
    # series of the equal-volume radius (a^2 b)^(1/3): next term is 5 f^3/81
    k.ge("at least b", v, b)
    k.ge("at most a", a, v)
    k.ge("volume from above", (v / a) * (v / a) * (v / a) - (1 - f), 0, scale=1)
    k.ge("volume to third order", f * f * f / 4, (v / a) * (v / a) * (v / a) - (1 - f), scale=1)


@CASES.case("C14", BOTH, bounds="all ellipsoids a>b>0 and spheres")
def area(P, k):
    ell, a, b = k.ellipsoid(P)
    r = P.rsphere.authalic(ell)
    e = ell.eccentricity
    if e > 0:
        if not k.symbolic:
            k.assume(e > 1e-6)
        k.eq("4 pi r^2 is the area of the ellipsoid", r * r, a * a / 2 + b * b / (4 * e) * k.log((1 + e) / (1 - e)))
    else:
        k.eq("sphere", r, a)


@CASES.case("C14", BOTH, bounds="all ellipsoids")
def rectifying(P, k):
    ell, a, b = k.ellipsoid(P)
    r = P.rsphere.rectifying(ell)
    k.eq("the 3/2-power mean", r * k.sqrt(r), (a * k.sqrt(a) + b * k.sqrt(b)) / 2)
    k.ge("at least b", r, b)
    k.ge("at most a", a, r)


@both("C14", bounds="all latitudes, ellipsoids")
def local_sphere(P, k, deg):
    lat = k.latitude("lat", deg)
    ell, a, b = k.ellipsoid(P)
    M, N = P.rcurve.meridian(lat, ell, deg=deg), P.rcurve.transverse(lat, ell, deg=deg)
    C = P.rsphere.curve
    k.eq("mean", C(lat, ell, deg=deg, method="mean"), (M + N) / 2)
    k.eq("default", C(lat, ell, deg=deg), (M + N) / 2)
    g = C(lat, ell, deg=deg, method="norm")
    k.eq("norm", g * g, M * N)
    k.raises("method", ValueError, lambda: C(lat, ell, deg=deg, method="average"))


@both("C14", bounds="all pairs of points, ellipsoids; vdist and the two curvatures (C13) uninterpreted, curvatures positive")
def euler(P, k, deg):
    k.stub(P, "vincenty.vdist", 2, (1,))
    k.stub(P, "rcurve.meridian", 0)
    k.stub(P, "rcurve.transverse", 0)
    la1, la2 = k.latitude("lat1", deg), k.latitude("lat2", deg)
    lo1, lo2 = k.angle("lon1", deg=deg), k.angle("lon2", deg=deg)
    ell, a, b = k.ellipsoid(P)
    if not k.symbolic:
        k.assume(b > 0.99 * a and abs(la1 - la2) + abs(lo1 - lo2) > (1e-3 if deg else 1e-5))
        k.assume(abs(k.rad(lo1 - lo2, deg)) + abs(k.rad(la1 + la2, deg)) < 2.9)
    mid = k.rad((la1 + la2) / 2, deg)
    for unit, v in ((False, mid), (True, k.from_rad(mid, True))):
        M, N = P.rcurve.meridian(v, ell, deg=unit), P.rcurve.transverse(v, ell, deg=unit)
        k.positive(M)
        k.positive(N)
    d = P.vincenty.vdist(*[k.from_rad(k.rad(t, deg), True) for t in (la1, lo1, la2, lo2)], ell, deg=True)
    az = k.rad(d[1], True)
    r = P.rsphere.euler(la1, lo1, la2, lo2, ell, deg=deg)
    s, c = k.sin(az), k.cos(az)
    k.eq("Euler's formula in the azimuth of the geodesic", r * (M * s * s + N * c * c), M * N, tol=1e-7)


# ---------------------------------------------------------------- C11
def nv(k, tag):
    la, lo = k.latitude("lat" + tag), k.angle("lon" + tag)
    return (k.cos(la) * k.cos(lo), k.cos(la) * k.sin(lo), k.sin(la))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


@both("C11", bounds="all positions")
def nvector_is_normal(P, k, deg):
    lat, lon = k.latitude("lat", deg), k.angle("lon", deg=deg)
    N = P.nvector
    n = N.geodetic2nvector(lat, lon, deg=deg)
    k.vec("the up vector", n, axes(k, lat, lon, deg)[2], 1e-12, scale=1)
    back = N.nvector2geodetic(*n, deg=deg)
    c = 1 if k.symbolic else 1 / max(1e-9, abs(k.cos(k.rad(lat, deg))))
    k.ang("latitude", back[0], lat, deg, scale=c)
    if not k.is_pole(lat, deg):
        k.ang("longitude", back[1], lon, deg, scale=c)


@both("C11", bounds="all unit vectors, altitudes, ellipsoids; ecef2geodetic uninterpreted")
def nvector_ecef(P, k, deg):
    k.stub(P, "ecef.ecef2geodetic", 3, (0, 1))
    n = nv(k, "")
    alt = k.real("alt", sample=height)
    ell, a, b = k.ellipsoid(P)
    N = P.nvector
    s = 0 if k.symbolic else a + abs(alt)
    w = k.sqrt(a * a * (n[0] * n[0] + n[1] * n[1]) + b * b * n[2] * n[2])
    r = a * a / w
    p = N.nvector2ecef(*n, alt, ell, deg=deg)
    tol = 1e-7      # asin near the poles
    k.vec("position", p, ((r + alt) * n[0], (r + alt) * n[1], (b * b / w + alt) * n[2]), tol, scale=s)
    k.vec("altitude defaults to 0", N.nvector2ecef(*n, ell=ell, deg=deg), (r * n[0], r * n[1], b * b / w * n[2]), tol, scale=s)
    x = vec3(k, sample=ecefpoint)
    if not k.symbolic:
        k.assume((x[0] ** 2 + x[1] ** 2) ** 0.5 > 1e-3 * a)
    lat, lon, h = P.ecef.ecef2geodetic(*x, ell, deg=deg)
    k.vec("n-vector of a position", N.ecef2nvector(*x, ell, deg=deg), axes(k, lat, lon, deg)[2], scale=1)


def radius(k):
    return k.real("radius", 0, lo_open=True, sample=lambda r, s: 10 ** r.uniform(0, 8))


def wgs84_radius(P):
    return P.rsphere.eqavol(P.ellipsoid.Ellipsoid(6378137.0, 6356752.31424518))


@CASES.case("C11", BOTH, bounds="all pairs of unit vectors, radii > 0")
def nvector_distance(P, k):
    u, v = k.unit3("u"), k.unit3("v")
    R = radius(k)
    N = P.nvector
    d = N.nvector_distance(*u, *v, radius=R)
    c = cross(u, v)
    k.ang("radius times the angle between", d / R, k.atan2(k.sqrt(dot(c, c)), dot(u, v)))
    k.ge("non-negative", d / R, 0)
    k.ge("at most half a turn", k.pi, d / R)
    k.eq("symmetric", N.nvector_distance(*v, *u, radius=R) / R, d / R, scale=1)
    k.eq("zero for equal vectors", N.nvector_distance(*u, *u, radius=R) / R, 0, scale=1)
    k.eq("default radius", N.nvector_distance(*u, *v) / wgs84_radius(P), d / R, scale=1)


@CASES.case("C11", BOTH, bounds="all pairs of unit vectors with cosine of the angle between within 1e-12 of neither 1 nor -1, fractions in [0, 1]")
def nvector_interpolate(P, k):
    u, v = k.unit3("u"), k.unit3("v")
    f = k.real("fraction", 0, 1)
    d = dot(u, v)
    k.assume(d < 1 - 1e-12)
    k.assume(d > -1 + 1e-12)
    om = k.acos(d)
    k.fact(d - 1 + om * om / 2)
    p = P.nvector.nvector_interpolate(*u, *v, f)
    s = 1 if k.symbolic else 1 / k.sin(om)
    k.eq("unit vector", dot(p, p), 1, scale=1)
    k.eq("on the great circle", dot(p, cross(u, v)), 0, scale=s)
    k.eq("at the fraction of the angle from the first", dot(p, u), k.cos(f * om), scale=s)
    k.eq("on the side of the second", dot(p, v), k.cos(om - f * om), scale=s)


@CASES.case("C11", BOTH, bounds="all unit vectors")
def nvector_interpolate_equal(P, k):
    u = k.unit3("u")
    f = k.real("fraction", 0, 1)
    k.vec("equal ends", P.nvector.nvector_interpolate(*u, *u, f), u, 1e-7, scale=1)


@CASES.case("C11", BOTH, bounds="three unit vectors with sum longer than 1e-3")
def nvector_mean(P, k):
    u, v, w = k.unit3("u"), k.unit3("v"), k.unit3("w")
    s = [u[i] + v[i] + w[i] for i in range(3)]
    k.assume(dot(s, s) > 1e-6)
    m = P.nvector.nvector_mean(*[[u[i], v[i], w[i]] for i in range(3)])
    k.eq("unit vector", dot(m, m), 1, scale=1)
    k.vec("along the sum", cross(m, s), (0, 0, 0), 1e-7, scale=1)
    k.ge("same direction", dot(m, s), 0)
    if k.numpy:
        a = P.nvector.nvector_mean(*[k.arr(u[i], v[i], w[i]) for i in range(3)])
        k.vec("arrays as lists", a, m, 1e-9, scale=1)


@CASES.case("C11", BOTH, bounds="all paths (two unit vectors at sine of angle above 1e-3), points, radii > 0")
def nvector_cross_track(P, k):
    u, v, p = k.unit3("u"), k.unit3("v"), k.unit3("p")
    R = radius(k)
    c = cross(u, v)
    n2 = dot(c, c)
    k.assume(n2 > 1e-6)
    cp = cross(c, p)
    k.fact(dot(cp, cp))
    x = P.nvector.nvector_cross_track_distance(*u, *v, *p, radius=R)
    s = k.sin(x / R)
    k.eq("sine of the angle to the plane", s * k.sqrt(n2), dot(c, p), 1e-7, scale=1)
    k.ge("at least a quarter turn negative", x / R, -k.pi / 2)
    k.ge("at most a quarter turn", k.pi / 2, x / R)
    k.eq("default radius", P.nvector.nvector_cross_track_distance(*u, *v, *p) / wgs84_radius(P), x / R, scale=1)


@CASES.case("C11", BOTH, bounds="two great circles, each through two unit vectors, planes at squared sine of angle above 1e-6 after scaling")
def nvector_intersection(P, k):
    u, v, w, t = [k.unit3(c) for c in "uvwt"]
    c, d = cross(u, v), cross(w, t)
    e = cross(c, d)
    k.assume(dot(e, e) > 1e-6)
    i = P.nvector.nvector_intersection(*u, *v, *w, *t)
    k.eq("unit vector", dot(i, i), 1, scale=1)
    k.eq("on the first circle", dot(i, c), 0, 1e-7, scale=1)
    k.eq("on the second circle", dot(i, d), 0, 1e-7, scale=1)
    m = [u[j] + v[j] + w[j] + t[j] for j in range(3)]
    k.ge("on the side of the mean", dot(i, m), 0, scale=1)


# ---------------------------------------------------------------- C15
def ray(P, k, deg, ell, a, c, tag=""):
    """observer position and direction; M, B, C: coefficients of the quadratic in the range"""
    lat0, lon0 = observer(k, deg, False, tag)
    h0 = k.real("h0" + tag, 0, sample=lambda r, s: abs(height(r, s)) * r.choice([1, 1, 0]))
    az, tilt = k.angle("az" + tag, 0, 2, deg), k.angle("tilt" + tag, 0, 1, deg, sample=lambda r, s: r.choice([r.uniform(0, 3.1), r.uniform(0, 0.5), 0.0]))
    x, y, z = P.ecef.geodetic2ecef(lat0, lon0, h0, ell, deg=deg)
    if k.symbolic:
        d = P.ecef.enu2uvw(*P.enu.aer2enu(az, tilt - k.turn(deg) / 4, 1, deg=deg), lat0, lon0, deg=deg)
        k.assume_unit(d)
    else:
        t, az_ = k.rad(tilt, deg), k.rad(az, deg)
        E, N, U = axes(k, lat0, lon0, deg)
        # tilt from straight down, azimuth clockwise from north
        d = [k.sin(t) * (k.sin(az_) * E[i] + k.cos(az_) * N[i]) - k.cos(t) * U[i] for i in range(3)]
    M = c * c * (d[0] * d[0] + d[1] * d[1]) + a * a * d[2] * d[2]
    B = c * c * (x * d[0] + y * d[1]) + a * a * z * d[2]
    C = c * c * (x * x + y * y) + a * a * z * z - a * a * c * c
    return (lat0, lon0, h0, az, tilt), (x, y, z), d, M, B, C


def ray_stubs(P, k):
    k.stub_elementwise(P, "ecef.ecef2geodetic", 3, (0, 1))
    k.stub_elementwise(P, "ecef.geodetic2ecef", 3)
    k.stub_elementwise(P, "ecef.enu2uvw", 3)


@both("C15", bounds="all observers on or outside the ellipsoid (position uninterpreted, outside by C01), directions (unit vector, uninterpreted; tied to azimuth and tilt by "
      "the case direction), ellipsoids; ecef2geodetic uninterpreted", cost=5)
def intersection(P, k, deg):
    ray_stubs(P, k)
    ell, a, c = k.ellipsoid(P)
    args, p, d, M, B, C = ray(P, k, deg, ell, a, c)
    k.nonneg(C)
    k.fact(M)
    k.fact(M * C)
    lat, lon, rng = P.los.lookAtSpheroid(*args, ell, deg=deg)
    disc = (B * B - M * C) / (c * c)
    if k.isnan(rng):
        if not k.symbolic:
            k.assume(abs(disc) * c * c > 1e-9 * B * B and abs(B) > 1e-9 * a * a * c and C > 1e-9 * a * a * c * c)
        if disc >= 0 and B <= 0:
            k.true("a ray that meets the ellipsoid is reported as missing it", False)
        k.true("no position either", k.isnan(lat) and k.isnan(lon) or k.symbolic)
        return
    if not k.symbolic:
        k.assume(disc * c * c > 1e-6 * B * B)
    q = [p[i] + rng * d[i] for i in range(3)]
    s = 0 if k.symbolic else (abs(args[2]) + a) ** 2 / a ** 2 * 1e2
    k.eq("the point is on the ellipsoid", (q[0] * q[0] + q[1] * q[1]) / (a * a) + q[2] * q[2] / (c * c), 1, 1e-9, scale=s)
    k.ge("in front of the observer", rng, 0, scale=0 if k.symbolic else a)
    k.ge("the first point on the ray", -B, M * rng, 1e-7, scale=0 if k.symbolic else abs(B) + a * a * c)
    want = P.ecef.ecef2geodetic(*q, ell, deg=deg)
    k.ang("latitude of the point", lat, want[0], deg, tol=1e-6)
    k.ang("longitude of the point", lon, want[1], deg, tol=1e-6, scale=1 if k.symbolic else 1 / max(1e-9, (q[0] ** 2 + q[1] ** 2) ** 0.5 / a))


@both("C15", bounds="the unit direction of every azimuth and tilt")
def direction(P, k, deg):
    az, tilt = k.angle("az", 0, 2, deg), k.angle("tilt", 0, 1, deg)
    lat0, lon0 = observer(k, deg, False)
    E, N, U = axes(k, lat0, lon0, deg)
    t, az_ = k.rad(tilt, deg), k.rad(az, deg)
    e, n, u = P.enu.aer2enu(az, tilt - k.turn(deg) / 4, 1.0, deg=deg)
    d = P.ecef.enu2uvw(e, n, u, lat0, lon0, deg=deg)
    k.vec("direction", d, [k.sin(t) * (k.sin(az_) * E[i] + k.cos(az_) * N[i]) - k.cos(t) * U[i] for i in range(3)], scale=1)
    k.eq("unit length", dot(d, d), 1, scale=1)


@both("C15", bounds="all negative altitudes, alone or in an array")
def below_the_surface(P, k, deg):
    lat0, lon0 = observer(k, deg, False)
    h0 = k.real("h0", -1e7, 0)
    k.assume(h0 < 0)
    ell, a, c = k.ellipsoid(P)
    k.raises("negative altitude", ValueError, lambda: P.los.lookAtSpheroid(lat0, lon0, h0, 0.0, 0.0, ell, deg=deg))
    if k.numpy:
        k.raises("negative altitude in an array", ValueError, lambda: P.los.lookAtSpheroid(k.arr(lat0, lat0), k.arr(lon0, lon0), k.arr(10.0, h0), k.arr(0.0, 0.0), k.arr(0.0, 0.0), ell, deg=deg))


@both("C15", modes=("numpy",), bounds="arrays of two rays, each hitting or missing; ecef2geodetic, geodetic2ecef and the direction uninterpreted", cost=5)
def intersection_array(P, k, deg):
    ray_stubs(P, k)
    ell, a, c = k.ellipsoid(P)
    rays = [ray(P, k, deg, ell, a, c, t) for t in "12"]
    for r in rays:
        args, p, d, M, B, C = r
        k.nonneg(C)
        k.fact(M - c * c)
        if not k.symbolic:
            k.assume(abs(B * B - M * C) > 1e-6 * B * B and abs(B) > 1e-6 * a * a * c and C > 1e-9 * a * a * c * c)
    cols = [k.arr(rays[0][0][j], rays[1][0][j]) for j in range(5)]
    keep = [list(c) for c in cols]
    got = P.los.lookAtSpheroid(*cols, ell, deg=deg)
    for c, d in zip(cols, keep):
        for i in range(2):
            k.true("inputs unchanged", c[i] is d[i] if k.symbolic else c[i] == d[i])
    for i in range(2):
        want = P.los.lookAtSpheroid(*rays[i][0], ell, deg=deg)
        n = k.isnan(want[2])
        k.true(f"element {i} misses like the scalar", n == k.isnan(got[2][i]))
        if not n:
            k.eq(f"range[{i}]", got[2][i], want[2])
            k.ang(f"latitude[{i}]", got[0][i], want[0], deg, tol=1e-6)
            k.ang(f"longitude[{i}]", got[1][i], want[1], deg, tol=1e-6, scale=1e3)

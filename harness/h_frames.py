"""Local frames: ENU, NED, NWU, SEZ, DCA, body, AER and their composites (C03 C04 C05 C06 C07 C08 C01)."""
from reg import Registry

CASES = Registry()
BOTH = ("numpy", "stdlib")
BIG = 1e7          # magnitude that sets the rounding scale of ECEF coordinates
MM = "1/1000"


def both_units(prop, modes=BOTH, **o):
    """register one case per angle unit"""
    def deco(fn):
        for deg in (True, False):
            CASES.case(prop, modes, name=fn.__name__ + ("_deg" if deg else "_rad"), **o)(
                lambda P, k, deg=deg: fn(P, k, deg))
        return fn
    return deco


def observer(k, deg, h=True, tag="0"):
    lat0, lon0 = k.latitude("lat" + (tag or "0"), deg), k.angle("lon" + (tag or "0"), deg=deg)
    return (lat0, lon0, k.real("h" + (tag or "0"), sample=height)) if h else (lat0, lon0)


def height(r, s):
    return r.choice([0.0, r.uniform(-5e3, 1e4), r.uniform(1e4, 4e7)])


def local(r, s):
    return r.choice([0.0, r.uniform(-1, 1) * 10 ** r.uniform(-2, 7)])


def vec3(k, names="xyz", sample=local):
    return [k.real(n, sample=sample) for n in names]


def ecefpoint(r, s):
    return r.uniform(-1, 1) * 10 ** r.uniform(5, 7.6)


def mat(m):
    return [[m[i][j] for j in range(3)] for i in range(3)]


def mul(m, v):
    return [m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] for i in range(3)]


def orthonormal(k, name, m, tol=1e-12):
    m = mat(m)
    for i in range(3):
        for j in range(i, 3):
            k.eq(f"{name}: row {i} . row {j}", sum(m[i][t] * m[j][t] for t in range(3)), 1 if i == j else 0, tol, scale=1)
    det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
           + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    k.eq(f"{name}: determinant", det, 1, tol, scale=1)


def axes(k, lat0, lon0, deg):
    """east, north, up unit vectors in ECEF from the definition of geodetic latitude and longitude"""
    la, lo = k.rad(lat0, deg), k.rad(lon0, deg)
    sl, cl, so, co = k.sin(la), k.cos(la), k.sin(lo), k.cos(lo)
    return [-so, co, 0], [-sl * co, -sl * so, cl], [cl * co, cl * so, sl]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


SIGN = {"enu": lambda e, n, u: (e, n, u), "ned": lambda e, n, u: (n, e, -u), "nwu": lambda e, n, u: (n, -e, u), "sez": lambda e, n, u: (-n, e, u)}
TOENU = {"enu": lambda a, b, c: (a, b, c), "ned": lambda n, e, d: (e, n, -d), "nwu": lambda n, w, u: (-w, n, u), "sez": lambda s, e, z: (e, -s, z)}


# ---------------------------------------------------------------- C03
@both_units("C03", bounds="all observers, all vectors")
def vectors_are_components(P, k, deg):
    lat0, lon0 = observer(k, deg, False)
    v = vec3(k)
    E, N, U = axes(k, lat0, lon0, deg)
    sc = 1e8
    enu = [dot(E, v), dot(N, v), dot(U, v)]
    k.vec("ecef2enuv is the components along the axes", P.ecef.ecef2enuv(*v, lat0, lon0, deg=deg), enu, scale=k.abs(v[0]) + k.abs(v[1]) + k.abs(v[2]) if not k.symbolic else 0)
    s = 0 if k.symbolic else abs(v[0]) + abs(v[1]) + abs(v[2])
    k.vec("uvw2enu is the components along the axes", P.ecef.uvw2enu(*v, lat0, lon0, deg=deg), enu, scale=s)
    k.vec("ecef2nedv", P.ned.ecef2nedv(*v, lat0, lon0, deg=deg), SIGN["ned"](*enu), scale=s)
    k.vec("ecef2nwuv", P.nwu.ecef2nwuv(*v, lat0, lon0, deg=deg), SIGN["nwu"](*enu), scale=s)
    k.vec("ecef2sezv", P.sez.ecef2sezv(*v, lat0, lon0, deg=deg), SIGN["sez"](*enu), scale=s)


@both_units("C03", bounds="all observers, all vectors")
def vectors_compose(P, k, deg):
    lat0, lon0 = observer(k, deg, False)
    v = vec3(k)
    E, N, U = axes(k, lat0, lon0, deg)
    s = 0 if k.symbolic else abs(v[0]) + abs(v[1]) + abs(v[2])

    def world(e, n, u):
        return [E[i] * e + N[i] * n + U[i] * u for i in range(3)]
    k.vec("enu2uvw", P.ecef.enu2uvw(*v, lat0, lon0, deg=deg), world(*v), scale=s)
    k.vec("enu2ecefv", P.enu.enu2ecefv(*v, lat0, lon0, deg=deg), world(*v), scale=s)
    k.vec("nwu2ecefv", P.nwu.nwu2ecefv(*v, lat0, lon0, deg=deg), world(*TOENU["nwu"](*v)), scale=s)
    k.vec("sez2ecefv", P.sez.sez2ecefv(*v, lat0, lon0, deg=deg), world(*TOENU["sez"](*v)), scale=s)
    k.vec("round trip", P.ecef.uvw2enu(*P.ecef.enu2uvw(*v, lat0, lon0, deg=deg), lat0, lon0, deg=deg), v, scale=s)
    k.eq("length kept", k.norm2(P.ecef.enu2uvw(*v, lat0, lon0, deg=deg)), k.norm2(v), scale=s * s)


@both_units("C03", bounds="all observers")
def matrices(P, k, deg):
    lat0, lon0 = observer(k, deg, False)
    E, N, U = axes(k, lat0, lon0, deg)
    for f in ("enu", "ned", "nwu", "sez"):
        m = getattr(getattr(P, f), f"ecef2{f}_matrix")(lat0, lon0, deg=deg)
        b = getattr(getattr(P, f), f"{f}2ecef_matrix")(lat0, lon0, deg=deg)
        orthonormal(k, f"ecef2{f}_matrix", m)
        want = {"enu": [E, N, U], "ned": [N, E, [-x for x in U]], "nwu": [N, [-x for x in E], U], "sez": [[-x for x in N], E, U]}[f]
        for i in range(3):
            k.vec(f"ecef2{f}_matrix row {i}", m[i], want[i], scale=1, tol=1e-12)
            for j in range(3):
                k.eq(f"{f}2ecef_matrix[{i}][{j}] is the transpose", b[i][j], m[j][i], scale=1, tol=1e-12)


@both_units("C03", bounds="all observers, points and ellipsoids a>=b>0")
def points_are_shifted_vectors(P, k, deg):
    lat0, lon0, h0 = observer(k, deg)
    ell, a, b = k.ellipsoid(P)
    p = vec3(k, sample=ecefpoint)
    o = P.ecef.geodetic2ecef(lat0, lon0, h0, ell, deg=deg)
    sc = 0 if k.symbolic else max(abs(x) for x in list(p) + [float(t) for t in o]) + a
    d = [p[i] - o[i] for i in range(3)]
    enu = P.ecef.ecef2enuv(*d, lat0, lon0, deg=deg)
    k.vec("ecef2enu", P.ecef.ecef2enu(*p, lat0, lon0, h0, ell, deg=deg), enu, scale=sc)
    back = P.ecef.enu2ecef(*p, lat0, lon0, h0, ell, deg=deg)
    w = P.ecef.enu2uvw(*p, lat0, lon0, deg=deg)
    k.vec("enu2ecef", back, [o[i] + w[i] for i in range(3)], scale=sc)
    k.vec("ecef2enu inverts enu2ecef", P.ecef.ecef2enu(*back, lat0, lon0, h0, ell, deg=deg), p, scale=sc)
    for f in ("ned", "nwu", "sez"):
        m = getattr(P, f)
        k.vec(f"ecef2{f}", getattr(m, f"ecef2{f}")(*p, lat0, lon0, h0, ell, deg=deg), SIGN[f](*enu), scale=sc)
        k.vec(f"ecef2{f} inverts {f}2ecef", getattr(m, f"ecef2{f}")(*getattr(m, f"{f}2ecef")(*p, lat0, lon0, h0, ell, deg=deg), lat0, lon0, h0, ell, deg=deg), p, scale=sc)
    k.vec("the observer is the origin", P.ecef.ecef2enu(*o, lat0, lon0, h0, ell, deg=deg), (0, 0, 0), scale=sc)


# ---------------------------------------------------------------- C04
def each_frame():
    return ("ned", "nwu", "sez")


@both_units("C04", bounds="all az/el/range, all vectors")
def aer_routes(P, k, deg):
    az, el, r = k.angle("az", 0, 2, deg), k.latitude("el", deg), k.real("r", 0, sample=lambda g, s: abs(local(g, s)))
    e, n, u = P.enu.aer2enu(az, el, r, deg=deg)
    for f in each_frame():
        k.vec(f"aer2{f}", getattr(getattr(P, f), f"aer2{f}")(az, el, r, deg=deg), SIGN[f](e, n, u), scale=r)


def frame2aer(f, deg):
    def h(P, k):
        v = vec3(k)
        want = P.enu.enu2aer(*TOENU[f](*v), deg=deg)
        got = getattr(getattr(P, f), f"{f}2aer")(*v, deg=deg)
        k.true("three outputs", len(got) == 3)
        k.ang("azimuth", got[0], want[0], deg)
        k.ang("elevation", got[1], want[1], deg)
        k.eq("range", got[2], want[2], scale=1e-3)
    return h


for _f in each_frame():
    for _d in (True, False):
        CASES.case("C04", BOTH, name=f"{_f}2aer_{'deg' if _d else 'rad'}", bounds="all vectors")(frame2aer(_f, _d))


@both_units("C04", bounds="all observers, targets and ellipsoids")
def geodetic_routes(P, k, deg):
    lat0, lon0, h0 = observer(k, deg)
    lat, lon, h = k.latitude("lat", deg), k.angle("lon", deg=deg), k.real("h", sample=height)
    ell, a, b = k.ellipsoid(P)
    sc = 0 if k.symbolic else a + abs(h) + abs(h0)
    enu = P.enu.geodetic2enu(lat, lon, h, lat0, lon0, h0, ell, deg=deg)
    for f in each_frame():
        k.vec(f"geodetic2{f}", getattr(getattr(P, f), f"geodetic2{f}")(lat, lon, h, lat0, lon0, h0, ell, deg=deg), SIGN[f](*enu), scale=sc)
    k.vec("geodetic2ned positional deg", P.ned.geodetic2ned(lat, lon, h, lat0, lon0, h0, ell, deg), SIGN["ned"](*enu), scale=sc)
    if True:
        wgs = P.enu.geodetic2enu(lat, lon, h, lat0, lon0, h0, deg=deg)
        for f in each_frame():
            k.vec(f"geodetic2{f} default ellipsoid", getattr(getattr(P, f), f"geodetic2{f}")(lat, lon, h, lat0, lon0, h0, deg=deg), SIGN[f](*wgs), scale=0 if k.symbolic else 1e7 + abs(h) + abs(h0))


@both_units("C04", bounds="all observers, vectors and ellipsoids; ecef2geodetic uninterpreted")
def to_geodetic_routes(P, k, deg):
    k.stub(P, "ecef.ecef2geodetic", 3, (0, 1))
    lat0, lon0, h0 = observer(k, deg)
    v = vec3(k)
    ell, a, b = k.ellipsoid(P)
    # far from the centre of the ellipsoid, where geodetic coordinates are well conditioned
    if not k.symbolic:
        x = [float(t) for t in P.ecef.enu2ecef(*v, lat0, lon0, h0, ell, deg=deg)]
        k.assume(sum(t * t for t in x) ** 0.5 > a and (x[0] ** 2 + x[1] ** 2) ** 0.5 > 1e-3 * a)
    for f in ("enu", "ned", "nwu", "sez"):
        w = TOENU[f](*v)
        x = P.ecef.enu2ecef(*w, lat0, lon0, h0, ell, deg=deg)
        if not k.symbolic:
            y = [float(t) for t in x]
            if sum(t * t for t in y) ** 0.5 < a or (y[0] ** 2 + y[1] ** 2) ** 0.5 < 1e-3 * a:
                continue
        want = P.ecef.ecef2geodetic(*x, ell, deg=deg)
        got = getattr(getattr(P, f), f"{f}2geodetic")(*v, lat0, lon0, h0, ell, deg=deg)
        sc = 0 if k.symbolic else a + max(abs(t) for t in v) + abs(h0)
        k.ang(f"{f}2geodetic latitude", got[0], want[0], deg, scale=1)
        k.ang(f"{f}2geodetic longitude", got[1], want[1], deg, scale=1e3)
        k.eq(f"{f}2geodetic altitude", got[2], want[2], scale=sc)


# ---------------------------------------------------------------- C05
@both_units("C05", bounds="all finite vectors (components below 1 mm may be flushed)")
def enu_aer_enu(P, k, deg):
    v = vec3(k, "enu")
    az, el, r = P.enu.enu2aer(*v, deg=deg)
    k.vec("aer2enu(enu2aer)", P.enu.aer2enu(az, el, r, deg=deg), v, scale=0 if k.symbolic else max(abs(t) for t in v), atol=0.001)
    t = k.turn(deg)
    k.between("azimuth", az, 0, t, tol=1e-15, hi_open=True)
    k.between("elevation", el, -t / 4, t / 4, tol=1e-15)
    k.ge("range", r, 0)


@both_units("C05", bounds="all vectors with every component at least 1 mm or zero")
def aer_values(P, k, deg):
    e, n, u = vec3(k, "enu")
    for x in (e, n, u):
        k.assume(x >= 0.001 or x <= -0.001 or x == 0)
    az, el, r = P.enu.enu2aer(e, n, u, deg=deg)
    az, el = k.rad(az, deg), k.rad(el, deg)
    k.eq("range is the length", r, k.sqrt(k.norm2((e, n, u))))
    k.vec("direction", (r * k.cos(el) * k.sin(az), r * k.cos(el) * k.cos(az), r * k.sin(el)), (e, n, u), scale=0 if k.symbolic else max(abs(t) for t in (e, n, u)))


@both_units("C05", bounds="all azimuths, elevations within +-90, ranges >= 0")
def aer2enu_values(P, k, deg):
    az, el, r = k.angle("az", -2, 2, deg), k.latitude("el", deg), k.real("r", 0, sample=lambda g, s: abs(local(g, s)))
    e, n, u = P.enu.aer2enu(az, el, r, deg=deg)
    a, b = k.rad(az, deg), k.rad(el, deg)
    k.eq("up", u, r * k.sin(b), scale=r)
    k.eq("north", n, r * k.cos(b) * k.cos(a), scale=r)
    k.eq("east", e, r * k.cos(b) * k.sin(a), scale=r)


@both_units("C05", modes=("numpy",), bounds="arrays of two vectors, each in any branch")
def enu2aer_array(P, k, deg):
    v, w = vec3(k, ["e1", "n1", "u1"]), vec3(k, ["e2", "n2", "u2"])
    k.assume(v[0] >= 1 and v[1] <= -1)
    cols = [k.arr(a, b) for a, b in zip(v, w)]
    keep = [c.copy() for c in cols]
    az, el, r = P.enu.enu2aer(*cols, deg=deg)
    for i, x in enumerate((v, w)):
        a, b, c = P.enu.enu2aer(*x, deg=deg)
        k.eq(f"azimuth[{i}]", az[i], a, 1e-12, scale=1)
        k.eq(f"elevation[{i}]", el[i], b, 1e-12, scale=1)
        k.eq(f"range[{i}]", r[i], c, 1e-12, scale=1e-3)
    for c, d in zip(cols, keep):
        for i in range(2):
            k.true("inputs unchanged", c[i] is d[i] if k.symbolic else c[i] == d[i])


@CASES.case("C05", BOTH, bounds="all Cartesian / polar / spherical triples")
def cartesian_polar(P, k):
    x, y, z = vec3(k)
    th, rho = P.utils.cart2pol(x, y)
    k.eq("rho", rho, k.sqrt(x * x + y * y), scale=1e-6)
    X, Y = P.utils.pol2cart(th, rho)
    k.vec("pol2cart(cart2pol)", (X, Y), (x, y), scale=rho)
    az, el, r = P.utils.cart2sph(x, y, z)
    k.eq("r", r, k.sqrt(x * x + y * y + z * z), scale=1e-6)
    k.vec("sph2cart(cart2sph)", P.utils.sph2cart(az, el, r), (x, y, z), scale=r)
    k.between("elevation", el, -k.pi / 2, k.pi / 2)


# ---------------------------------------------------------------- C07
@both_units("C07", bounds="all attitudes")
def body_matrices(P, k, deg):
    ypr = k.angle("yaw", -2, 2, deg), k.angle("pitch", deg=deg), k.angle("roll", deg=deg)
    y, p, r = [k.rad(t, deg) for t in ypr]
    B = P.body
    m = mat(B.body_matrix(*ypr, deg=deg))
    orthonormal(k, "body_matrix", m)
    sy, cy, sp, cp, sr, cr = k.sin(y), k.cos(y), k.sin(p), k.cos(p), k.sin(r), k.cos(r)
    want = [[cy * cp, sy * cp, -sp], [cy * sp * sr - sy * cr, sy * sp * sr + cy * cr, cp * sr], [cy * sp * cr + sy * sr, sy * sp * cr - cy * sr, cp * cr]]
    for i in range(3):
        k.vec(f"body_matrix row {i} is the 3-2-1 rotation", m[i], want[i], 1e-12, scale=1)
    for f in ("ned", "enu", "sez", "nwu"):
        fw, bw = mat(getattr(B, f"{f}2body_matrix")(*ypr, deg=deg)), mat(getattr(B, f"body2{f}_matrix")(*ypr, deg=deg))
        for i in range(3):
            k.vec(f"body2{f}_matrix row {i} is the transpose", bw[i], [fw[j][i] for j in range(3)], 1e-12, scale=1)
        # column for each axis of the frame
        for j, ax in enumerate(([1, 0, 0], [0, 1, 0], [0, 0, 1])):
            ned = SIGN["ned"](*TOENU[f](*ax))
            k.vec(f"{f}2body_matrix column {j}", [fw[i][j] for i in range(3)], mul(want, ned), 1e-12, scale=1)


@both_units("C07", bounds="all attitudes and vectors")
def body_vectors(P, k, deg):
    ypr = k.angle("yaw", -2, 2, deg), k.angle("pitch", deg=deg), k.angle("roll", deg=deg)
    v = vec3(k)
    s = 0 if k.symbolic else max(abs(t) for t in v)
    for f in ("ned", "enu", "sez", "nwu"):
        fw = mat(getattr(P.body, f"{f}2body_matrix")(*ypr, deg=deg))
        got = getattr(P.body, f"{f}2body")(*v, *ypr, deg=deg)
        k.vec(f"{f}2body", got, mul(fw, v), scale=s)
        k.vec(f"body2{f} inverts", getattr(P.body, f"body2{f}")(*got, *ypr, deg=deg), v, scale=s)


def body_ecef(frame, deg):
    def h(P, k):
        lat0, lon0, h0 = observer(k, deg)
        ypr = k.angle("yaw", deg=deg), k.angle("pitch", deg=deg), k.angle("roll", deg=deg)
        ell, a, b = k.ellipsoid(P)
        v = vec3(k, sample=ecefpoint)
        s = 0 if k.symbolic else a + abs(h0) + max(abs(t) for t in v)
        B = P.body
        E, N, U = axes(k, lat0, lon0, deg)
        ned = (dot(N, v), dot(E, v), -dot(U, v))
        want = mul(mat(B.body_matrix(*ypr, deg=deg)), ned)
        if frame != "ned":
            want = getattr(B, f"{frame}2body")(*SIGN[frame](*(ned[1], ned[0], -ned[2])), *ypr, deg=deg)
        k.vec("ecef2bodyv", B.ecef2bodyv(*v, lat0, lon0, *ypr, frame=frame, deg=deg), want, scale=s)
        k.vec("body2ecefv inverts", B.body2ecefv(*want, lat0, lon0, *ypr, frame=frame, deg=deg), v, scale=s)
        o = P.ecef.geodetic2ecef(lat0, lon0, h0, ell, deg=deg)
        k.vec("ecef2body", B.ecef2body(*[v[i] + o[i] for i in range(3)], lat0, lon0, h0, *ypr, ell, frame=frame, deg=deg), want, scale=s)
        k.vec("body2ecef", B.body2ecef(*want, lat0, lon0, h0, *ypr, ell, frame=frame, deg=deg), [v[i] + o[i] for i in range(3)], scale=s)
    return h


def body_geo(frame, deg):
    def h(P, k):
        k.stub(P, "ecef.ecef2geodetic", 3, (0, 1))
        lat0, lon0, h0 = observer(k, deg)
        lat, lon, h = k.latitude("lat", deg), k.angle("lon", deg=deg), k.real("h", sample=height)
        ypr = k.angle("yaw", deg=deg), k.angle("pitch", deg=deg), k.angle("roll", deg=deg)
        ell, a, b = k.ellipsoid(P)
        s = 0 if k.symbolic else a + abs(h0) + abs(h)
        B = P.body
        x = P.ecef.geodetic2ecef(lat, lon, h, ell, deg=deg)
        want = B.ecef2body(*x, lat0, lon0, h0, *ypr, ell, frame=frame, deg=deg)
        k.vec("geodetic2body", B.geodetic2body(lat, lon, h, lat0, lon0, h0, *ypr, ell, frame=frame, deg=deg), want, scale=s)
        if not k.symbolic:
            k.assume(abs(k.rad(lat, deg)) < 1.57 and h > -0.01 * a)
        g = B.body2geodetic(*want, lat0, lon0, h0, *ypr, ell, frame=frame, deg=deg)
        back = P.ecef.ecef2geodetic(*B.body2ecef(*want, lat0, lon0, h0, *ypr, ell, frame=frame, deg=deg), ell, deg=deg)
        k.ang("body2geodetic latitude", g[0], back[0], deg)
        k.ang("body2geodetic longitude", g[1], back[1], deg, scale=1e3)
        k.eq("body2geodetic altitude", g[2], back[2], scale=s)
    return h


for _f in ("ned", "enu", "sez", "nwu"):
    for _d in (True, False):
        CASES.case("C07", ("numpy",), name=f"body_ecef_{_f}_{'deg' if _d else 'rad'}", bounds="all observers, attitudes, points, ellipsoids")(body_ecef(_f, _d))
        CASES.case("C07", ("numpy",), name=f"body_geodetic_{_f}_{'deg' if _d else 'rad'}",
                   bounds="all observers, attitudes, points, ellipsoids; ecef2geodetic uninterpreted")(body_geo(_f, _d))


@CASES.case("C07", BOTH, bounds="three unknown names per function")
def body_rejects(P, k):
    B = P.body
    ypr = k.angle("yaw"), k.angle("pitch"), k.angle("roll")
    v = vec3(k)
    for bad in ("xyz", "ZYX", ""):
        k.raises(f"sequence {bad!r}", ValueError, lambda: B.body_matrix(*ypr, sequence=bad))
        k.raises(f"sequence {bad!r} (vector)", ValueError, lambda: B.body2enu(*v, *ypr, sequence=bad))
        k.raises(f"frame {bad!r}", ValueError, lambda: B.ecef2bodyv(*v, 0.1, 0.2, *ypr, frame=bad))
        k.raises(f"frame {bad!r} (point)", ValueError, lambda: B.body2ecef(*v, 0.1, 0.2, 0, *ypr, frame=bad))
        k.raises(f"frame {bad!r} (geodetic)", ValueError, lambda: B.geodetic2body(*v, 0.1, 0.2, 0, *ypr, frame=bad))
        k.raises(f"frame {bad!r} (to geodetic)", ValueError, lambda: B.body2geodetic(*v, 0.1, 0.2, 0, *ypr, frame=bad))
        k.raises(f"frame {bad!r} (to body)", ValueError, lambda: B.ecef2body(*v, 0.1, 0.2, 0, *ypr, frame=bad))


# ---------------------------------------------------------------- C08
@both_units("C08", bounds="all headings and vectors")
def dca_rotation(P, k, deg):
    H = k.angle("heading", -2, 2, deg)
    v = vec3(k, "enu")
    s = 0 if k.symbolic else max(abs(t) for t in v)
    t = k.rad(H, deg)
    e, n, u = v
    want = (e * k.sin(t) + n * k.cos(t), n * k.sin(t) - e * k.cos(t), u)   # along the heading, to its left, up
    D = P.dca
    k.vec("enu2dca", D.enu2dca(e, n, u, H, deg=deg), want, scale=s)
    k.vec("dca2enu inverts", D.dca2enu(*want, H, deg=deg), v, scale=s)
    k.vec("dca2enu", D.enu2dca(*D.dca2enu(*v, H, deg=deg), H, deg=deg), v, scale=s)
    k.vec("ned2dca", D.ned2dca(n, e, -u, H, deg=deg), want, scale=s)
    k.vec("dca2ned", D.dca2ned(*want, H, deg=deg), (n, e, -u), scale=s)


@both_units("C08", bounds="all headings, observers, points, ellipsoids; ecef2geodetic uninterpreted")
def dca_composites(P, k, deg):
    k.stub(P, "ecef.ecef2geodetic", 3, (0, 1))
    H = k.angle("heading", deg=deg)
    lat0, lon0, h0 = observer(k, deg)
    ell, a, b = k.ellipsoid(P)
    v = vec3(k, sample=ecefpoint)
    lat, lon, h = k.latitude("lat", deg), k.angle("lon", deg=deg), k.real("h", sample=height)
    s = 0 if k.symbolic else a + abs(h0) + max(abs(t) for t in v) + abs(h)
    D = P.dca
    k.vec("ecef2dca", D.ecef2dca(*v, lat0, lon0, h0, H, ell, deg=deg), D.enu2dca(*P.ecef.ecef2enu(*v, lat0, lon0, h0, ell, deg=deg), H, deg=deg), scale=s)
    w = P.ecef.enu2ecef(*D.dca2enu(*v, H, deg=deg), lat0, lon0, h0, ell, deg=deg)
    k.vec("dca2ecef", D.dca2ecef(*v, lat0, lon0, h0, H, ell, deg=deg), w, scale=s)
    k.vec("geodetic2dca", D.geodetic2dca(lat, lon, h, lat0, lon0, h0, H, ell, deg=deg),
          D.enu2dca(*P.enu.geodetic2enu(lat, lon, h, lat0, lon0, h0, ell, deg=deg), H, deg=deg), scale=s)
    if not k.symbolic:
        y = [float(t) for t in w]
        k.assume(sum(t * t for t in y) ** 0.5 > a and (y[0] ** 2 + y[1] ** 2) ** 0.5 > 1e-3 * a)
    g, want = D.dca2geodetic(*v, lat0, lon0, h0, H, ell, deg=deg), P.ecef.ecef2geodetic(*w, ell, deg=deg)
    k.ang("dca2geodetic latitude", g[0], want[0], deg)
    k.ang("dca2geodetic longitude", g[1], want[1], deg, scale=1e3)
    k.eq("dca2geodetic altitude", g[2], want[2], scale=s)


@both_units("C08", bounds="all headings, directions and vectors of at least 1 mm per component")
def dca_aer(P, k, deg):
    H = k.angle("heading", deg=deg)
    az, el, r = k.angle("az", 0, 2, deg), k.latitude("el", deg), k.real("r", 0, sample=lambda g, s: abs(local(g, s)))
    D = P.dca
    k.vec("aer2dca", D.aer2dca(az, el, r, H, deg=deg), D.enu2dca(*P.enu.aer2enu(az, el, r, deg=deg), H, deg=deg), scale=r)


@both_units("C08", bounds="all headings, vectors with every ENU component at least 1 mm or zero")
def dca_to_aer(P, k, deg):
    H = k.angle("heading", deg=deg)
    v = vec3(k)
    D = P.dca
    got, want = D.dca2aer(*v, H, deg=deg), P.enu.enu2aer(*D.dca2enu(*v, H, deg=deg), deg=deg)
    k.ang("azimuth", got[0], want[0], deg)
    k.ang("elevation", got[1], want[1], deg)
    k.eq("range", got[2], want[2])

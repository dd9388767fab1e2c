"""Composite routes, angle units, time, inertial frame and sky coordinates (C06 C09 C10 C19 C20 C21 C22 C24)."""
from reg import Registry
from h_frames import SIGN, TOENU, both_units, dot, ecefpoint, height, local, mat, mul, observer, orthonormal, vec3
import h_frames

CASES = Registry()
BOTH = ("numpy", "stdlib")


def faketime():
    from vsym import fakedt
    return fakedt.overrides()


def both(prop, modes=BOTH, **o):
    def deco(fn):
        for deg in (True, False):
            CASES.case(prop, modes, name=fn.__name__ + ("_deg" if deg else "_rad"), **o)(lambda P, k, deg=deg: fn(P, k, deg))
        return fn
    return deco


def target(k, deg):
    return k.latitude("lat", deg), k.angle("lon", deg=deg), k.real("h", sample=height)


def direction(k, deg):
    return k.angle("az", 0, 2, deg), k.latitude("el", deg), k.real("r", 0, sample=lambda g, s: abs(local(g, s)))


def conditioned(k, x, a):
    """concrete side: keep to points whose geodetic coordinates are well conditioned"""
    if k.symbolic:
        return True
    y = [float(t) for t in x]
    return sum(t * t for t in y) ** 0.5 > a and (y[0] ** 2 + y[1] ** 2) ** 0.5 > 1e-3 * a


def same_geodetic(k, name, got, want, deg, sc):
    k.true(name + ": three outputs", len(got) == 3)
    k.ang(name + " latitude", got[0], want[0], deg)
    k.ang(name + " longitude", got[1], want[1], deg, scale=1e3)
    k.eq(name + " altitude", got[2], want[2], scale=sc)


def same_aer(k, name, got, want, deg, sc):
    """the same direction and range (compared as what they mean, which is well conditioned)"""
    k.true(name + ": three outputs", len(got) == 3)
    k.eq(name + " range", got[2], want[2], scale=sc)
    if k.symbolic:
        k.ang(name + " azimuth", got[0], want[0], deg)
        k.ang(name + " elevation", got[1], want[1], deg)
        return
    for v in (got, want):
        k.assume(abs(k.rad(v[1], deg)) < 1.57)
    import math
    f = [(r * math.cos(k.rad(e, deg)) * math.cos(k.rad(a, deg)), r * math.cos(k.rad(e, deg)) * math.sin(k.rad(a, deg)), r * math.sin(k.rad(e, deg)))
         for a, e, r in (tuple(float(k._scalar(t)) for t in v) for v in (got, want))]
    k.vec(name + " direction", f[0], f[1], scale=sc, atol=0.003)


# ---------------------------------------------------------------- C06
@both("C06", bounds="all observers, directions, ranges >= 0, ellipsoids; ecef2geodetic uninterpreted")
def aer_from_observer(P, k, deg):
    k.stub(P, "ecef.ecef2geodetic", 3, (0, 1))
    obs, d = observer(k, deg), direction(k, deg)
    ell, a, b = k.ellipsoid(P)
    sc = 0 if k.symbolic else a + abs(obs[2]) + d[2]
    x = P.enu.enu2ecef(*P.enu.aer2enu(*d, deg=deg), *obs, ell, deg=deg)
    k.vec("aer2ecef", P.aer.aer2ecef(*d, *obs, ell, deg=deg), x, scale=sc)
    k.vec("aer2ecef: deg by position", P.aer.aer2ecef(*d, *obs, ell, deg), x, scale=sc)
    k.vec("aer2ecef: default ellipsoid is WGS84", P.aer.aer2ecef(*d, *obs, deg=deg), P.aer.aer2ecef(*d, *obs, P.ellipsoid.Ellipsoid.from_name("wgs84"), deg=deg), scale=sc)
    if conditioned(k, x, a):
        same_geodetic(k, "aer2geodetic", P.aer.aer2geodetic(*d, *obs, ell, deg=deg), P.ecef.ecef2geodetic(*x, ell, deg=deg), deg, sc)


@both("C06", bounds="all observers, targets, ellipsoids")
def aer_of_geodetic(P, k, deg):
    obs, p = observer(k, deg), target(k, deg)
    ell, a, b = k.ellipsoid(P)
    k.stub_elementwise(P, "enu.enu2aer", 3, (0, 1))
    sc = 0 if k.symbolic else a + abs(obs[2]) + abs(p[2])
    x = P.ecef.geodetic2ecef(*p, ell, deg=deg)
    enu = P.ecef.ecef2enu(*x, *obs, ell, deg=deg)
    k.vec("geodetic2enu", P.enu.geodetic2enu(*p, *obs, ell, deg=deg), enu, scale=sc)
    same_aer(k, "geodetic2aer", P.aer.geodetic2aer(*p, *obs, ell, deg=deg), P.enu.enu2aer(*enu, deg=deg), deg, sc)


@both("C06", bounds="all observers, points, ellipsoids; enu2aer uninterpreted (decided by C05)")
def aer_of_ecef(P, k, deg):
    obs = observer(k, deg)
    x = vec3(k, sample=ecefpoint)
    ell, a, b = k.ellipsoid(P)
    k.stub_elementwise(P, "enu.enu2aer", 3, (0, 1))
    sc = 0 if k.symbolic else a + abs(obs[2]) + max(abs(t) for t in x)
    enu = P.ecef.ecef2enu(*x, *obs, ell, deg=deg)
    same_aer(k, "ecef2aer", P.aer.ecef2aer(*x, *obs, ell, deg=deg), P.enu.enu2aer(*enu, deg=deg), deg, sc)
    w = P.ellipsoid.Ellipsoid.from_name("wgs84")
    same_aer(k, "ecef2aer: default ellipsoid is WGS84", P.aer.ecef2aer(*x, *obs, deg=deg), P.aer.ecef2aer(*x, *obs, w, deg=deg), deg, sc)


def eop(k):
    return dict(delta_ut1=k.real("dut1", -1, 1), xp=k.real("xp", -1, 1), yp=k.real("yp", -1, 1))


DATES = ((1960, 1, 2), (2099, 12, 30))


@both("C06", overrides=faketime, bounds="all times, Earth orientation parameters, points, ellipsoids; rotation and ecef2geodetic uninterpreted")
def eci_geodetic(P, k, deg):
    k.stub(P, "ecef.ecef2geodetic", 3, (0, 1))
    k.stub_rotation(P, "earth_orientation.eci_to_ecef_matrix")
    t, e, p = k.time("t", *DATES), eop(k), target(k, deg)
    x = vec3(k, sample=ecefpoint)
    ell, a, b = k.ellipsoid(P)
    sc = 0 if k.symbolic else a + max(abs(t) for t in x) + abs(p[2])
    y = P.eci.eci2ecef(*x, t, **e)
    if conditioned(k, y, a):
        same_geodetic(k, "eci2geodetic", P.ecef.eci2geodetic(*x, t, ell, deg=deg, **e), P.ecef.ecef2geodetic(*y, ell, deg=deg), deg, sc)
    k.vec("geodetic2eci", P.ecef.geodetic2eci(*p, t, ell, deg=deg, **e), P.eci.ecef2eci(*P.ecef.geodetic2ecef(*p, ell, deg=deg), t, **e), scale=sc)
    k.vec("eci2ecef inverts geodetic2eci", P.eci.eci2ecef(*P.ecef.geodetic2eci(*p, t, ell, deg=deg, **e), t, **e), P.ecef.geodetic2ecef(*p, ell, deg=deg), scale=sc)
    k.vec("geodetic2eci without Earth orientation parameters", P.ecef.geodetic2eci(*p, t, ell, deg=deg), P.ecef.geodetic2eci(*p, t, ell, deg=deg, delta_ut1=0.0, xp=0.0, yp=0.0), scale=sc)


@both("C06", overrides=faketime, bounds="all times, Earth orientation parameters, observers, points, ellipsoids; rotation and enu2aer uninterpreted")
def eci_aer(P, k, deg):
    k.stub_rotation(P, "earth_orientation.eci_to_ecef_matrix")
    k.stub_elementwise(P, "enu.enu2aer", 3, (0, 1))
    t, e, d, obs = k.time("t", *DATES), eop(k), direction(k, deg), observer(k, deg)
    x = vec3(k, sample=ecefpoint)
    ell, a, b = k.ellipsoid(P)
    w = P.ellipsoid.Ellipsoid.from_name("wgs84")
    sc = 0 if k.symbolic else a + 7e6 + max(abs(t) for t in x) + abs(obs[2]) + d[2]
    y = P.eci.eci2ecef(*x, t, **e)
    same_aer(k, "eci2aer", P.aer.eci2aer(*x, *obs, t, deg=deg, **e), P.aer.ecef2aer(*y, *obs, w, deg=deg), deg, sc)
    k.vec("aer2eci", P.aer.aer2eci(*d, *obs, t, ell, deg=deg, **e), P.eci.ecef2eci(*P.aer.aer2ecef(*d, *obs, ell, deg=deg), t, **e), scale=sc)
    k.vec("aer2eci: default ellipsoid is WGS84", P.aer.aer2eci(*d, *obs, t, deg=deg, **e), P.aer.aer2eci(*d, *obs, t, w, deg=deg, **e), scale=sc)
    k.vec("aer2eci without Earth orientation parameters", P.aer.aer2eci(*d, *obs, t, ell, deg=deg), P.aer.aer2eci(*d, *obs, t, ell, deg=deg, delta_ut1=0.0, xp=0.0, yp=0.0), scale=sc)


# ---------------------------------------------------------------- C19 / C20: the calendar and Earth's rotation
LEAPS = [(1972, 1), (1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1), (1981, 7), (1982, 7), (1983, 7), (1985, 7),
         (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]


def seconds_of(y, m, d=1):
    import calendar
    return calendar.timegm((y, m, d, 0, 0, 0)) - 946684800


def tai_utc(k, s):
    """TAI-UTC at s seconds after 2000-01-01T00:00 UTC (IERS Bulletin C; 10 s before 1972)"""
    n = 10
    for i, (y, m) in enumerate(LEAPS):
        if not s >= seconds_of(y, m):
            break
        n = 10 + i
    return n


def rx(k, a):
    s, c = k.sin(a), k.cos(a)
    return [[1, 0, 0], [0, c, s], [0, -s, c]]


def ry(k, a):
    s, c = k.sin(a), k.cos(a)
    return [[c, 0, -s], [0, 1, 0], [s, 0, c]]


def rz(k, a):
    s, c = k.sin(a), k.cos(a)
    return [[c, s, 0], [-s, c, 0], [0, 0, 1]]


def chain(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = [[r[i][0] * m[0][j] + r[i][1] * m[1][j] + r[i][2] * m[2][j] for j in range(3)] for i in range(3)]
    return r


def earth_angles(k, s, e, leaps):
    """IAU-76 precession, the four largest terms of IAU-80 nutation, IAU-82 sidereal time, in radians"""
    def c(x):
        return k.const(x)

    def poly(t, *cs):
        r = c(cs[-1])
        for q in reversed(cs[:-1]):
            r = r * t + c(q)
        return r
    tu = (s + e["delta_ut1"] - 43200) / (86400 * 36525)
    tt = (s + leaps + c("32.184") - 43200) / (86400 * 36525)
    asec, d = k.pi / 648000, k.pi / 180
    zeta = poly(tt, "0", "2306.2181", "0.30188", "0.017998") * asec
    theta = poly(tt, "0", "2004.3109", "-0.42665", "-0.041833") * asec
    z = poly(tt, "0", "2306.2181", "1.09468", "0.018203") * asec
    eps0 = poly(tt, "84381.448", "-46.8150", "-0.00059", "0.001813") * asec
    om = poly(tt, "125.04452", "-1934.136261", "0.0020708", "1/450000") * d
    L, Lp = poly(tt, "280.4665", "36000.7698") * d, poly(tt, "218.3165", "481267.8813") * d
    dpsi = (c("-17.20") * k.sin(om) - c("1.32") * k.sin(2 * L) - c("0.23") * k.sin(2 * Lp) + c("0.21") * k.sin(2 * om)) * asec
    deps = (c("9.20") * k.cos(om) + c("0.57") * k.cos(2 * L) + c("0.10") * k.cos(2 * Lp) - c("0.09") * k.cos(2 * om)) * asec
    gmst = poly(tu, "67310.54841", str(876600 * 3600 + 8640184) + ".812866", "0.093104", "-0.0000062") * k.pi / 43200
    gast = gmst + dpsi * k.cos(eps0 + deps)
    return dict(zeta=zeta, theta=theta, z=z, eps0=eps0, dpsi=dpsi, deps=deps, gmst=gmst, gast=gast, xp=e["xp"] * asec, yp=e["yp"] * asec)


def earth_matrix(k, a):
    return chain(ry(k, -a["xp"]), rx(k, -a["yp"]), rz(k, a["gast"]), rx(k, -(a["eps0"] + a["deps"])), rz(k, -a["dpsi"]), rx(k, a["eps0"]),
                 rz(k, -a["z"]), ry(k, a["theta"]), rz(k, -a["zeta"]))


@CASES.case("C19", BOTH, overrides=faketime, time_limit=800, bounds="all UTC times 1960 to 2099, |UT1-UTC| and |pole| at most 1 s / 1 arcsecond; angles of sums uninterpreted inside sine and cosine")
def rotation_is_the_iau_reduction(P, k):
    k.opaque_trig()
    k.stub_julian(P)
    k.stub(P, "earth_orientation.leap_seconds", 0)
    t, e = k.time("t", *DATES), eop(k)
    m = P.earth_orientation.eci_to_ecef_matrix(t, **e)
    want = earth_matrix(k, earth_angles(k, k.seconds(t), e, P.earth_orientation.leap_seconds(t)))
    for i in range(3):
        k.vec(f"row {i}", [m[i][j] for j in range(3)], want[i], 3e-8, scale=1)


@CASES.case("C19", BOTH, overrides=faketime, bounds="all UTC times 1960 to 2099, Earth orientation parameters at most 1 s / 1 arcsecond; angles of sums uninterpreted inside sine and cosine")
def rotation_is_orthonormal(P, k):
    k.opaque_trig()
    k.stub_julian(P)
    k.stub(P, "earth_orientation.leap_seconds", 0)
    t, e = k.time("t", *DATES), eop(k)
    m = mat(P.earth_orientation.eci_to_ecef_matrix(t, **e))
    for i in range(3):
        for j in range(i, 3):
            k.eq(f"row {i} . row {j}", sum(m[i][c] * m[j][c] for c in range(3)), 1 if i == j else 0, 1e-12, scale=1)
    for i in range(3):
        a, b = m[(i + 1) % 3], m[(i + 2) % 3]
        k.vec(f"row {i} is the cross product of the next two", m[i], [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], 1e-12, scale=1)


@CASES.case("C19", BOTH, overrides=faketime, bounds="all UTC times 1960 to 2099 with any fixed offset, Earth orientation parameters, positions and velocities; rotation uninterpreted (its value is decided by another case)")
def positions(P, k):
    k.stub_rotation(P, "earth_orientation.eci_to_ecef_matrix")
    t, e = k.time("t", *DATES), eop(k)
    x = vec3(k, sample=ecefpoint)
    sc = 0 if k.symbolic else max(abs(c) for c in x)
    m = mat(P.earth_orientation.eci_to_ecef_matrix(t, **e))
    I = P.eci
    k.vec("eci2ecef", I.eci2ecef(*x, t, **e), mul(m, x), scale=sc)
    k.vec("ecef2eci", I.ecef2eci(*x, t, **e), mul([[m[j][i] for j in range(3)] for i in range(3)], x), scale=sc)
    k.vec("eci2ecef inverts ecef2eci", I.eci2ecef(*I.ecef2eci(*x, t, **e), t, **e), x, scale=sc)
    k.vec("ecef2eci inverts eci2ecef", I.ecef2eci(*I.eci2ecef(*x, t, **e), t, **e), x, scale=sc)
    z = dict(delta_ut1=0.0, xp=0.0, yp=0.0)
    k.vec("eci2ecef: parameters default to zero", I.eci2ecef(*x, t), I.eci2ecef(*x, t, **z), scale=sc)
    k.vec("ecef2eci: parameters default to zero", I.ecef2eci(*x, t), I.ecef2eci(*x, t, **z), scale=sc)
    k.vec("eci2ecef: force_non_astropy", I.eci2ecef(*x, t, True, **e), mul(m, x), scale=sc)
    k.vec("ecef2eci: force_non_astropy", I.ecef2eci(*x, t, True, **e), I.ecef2eci(*x, t, **e), scale=sc)


@CASES.case("C19", BOTH, overrides=faketime, bounds="all UTC times 1960 to 2099, Earth orientation parameters, positions and velocities; rotation uninterpreted (its value is decided by another case)")
def states(P, k):
    k.stub_rotation(P, "earth_orientation.eci_to_ecef_matrix")
    t, e = k.time("t", *DATES), eop(k)
    x, v = vec3(k, sample=ecefpoint), vec3(k, ["u", "v", "w"], sample=lambda r, s: r.uniform(-1, 1) * 10 ** r.uniform(0, 4))
    sc = 0 if k.symbolic else max(abs(c) for c in x)
    vs = 0 if k.symbolic else max(abs(c) for c in v) + sc * 1e-4
    I, O = P.eci, P.earth_orientation
    half = k.timespan(0.5)
    m, mp, mm = mat(O.eci_to_ecef_matrix(t, **e)), mat(O.eci_to_ecef_matrix(t + half, **e)), mat(O.eci_to_ecef_matrix(t - half, **e))
    rate = [[mp[i][j] - mm[i][j] for j in range(3)] for i in range(3)]
    a, b = mul(m, v), mul(rate, x)
    s = I.eci2ecef_state(*x, *v, t, **e)
    k.true("six outputs", len(s) == 6)
    k.vec("position", s[:3], mul(m, x), scale=sc)
    k.vec("velocity is R v + dR/dt r", s[3:], [a[i] + b[i] for i in range(3)], scale=vs)
    k.vec("the position is that of eci2ecef", s[:3], I.eci2ecef(*x, t, **e), scale=sc)
    back = I.ecef2eci_state(*s, t, **e)
    k.vec("ecef2eci_state inverts eci2ecef_state: position", back[:3], x, scale=sc)
    k.vec("ecef2eci_state inverts eci2ecef_state: velocity", back[3:], v, scale=vs)
    z = dict(delta_ut1=0.0, xp=0.0, yp=0.0)
    k.vec("eci2ecef_state: parameters default to zero", I.eci2ecef_state(*x, *v, t), I.eci2ecef_state(*x, *v, t, **z), scale=sc)
    k.vec("ecef2eci_state: parameters default to zero", I.ecef2eci_state(*x, *v, t), I.ecef2eci_state(*x, *v, t, **z), scale=sc)
    k.vec("eci2ecef_state: force_non_astropy", I.eci2ecef_state(*x, *v, t, True, **e), s, scale=sc)


@CASES.case("C19", ("numpy",), overrides=faketime, bounds="arrays of two positions and velocities; rotation uninterpreted")
def arrays(P, k):
    k.stub_rotation(P, "earth_orientation.eci_to_ecef_matrix")
    t, e = k.time("t", *DATES), eop(k)
    a, b = vec3(k, ["x1", "y1", "z1"], ecefpoint), vec3(k, ["x2", "y2", "z2"], ecefpoint)
    c, d = vec3(k, ["u1", "v1", "w1"]), vec3(k, ["u2", "v2", "w2"])
    sc = 0 if k.symbolic else max(abs(q) for q in a + b)
    X, V = [k.arr(p, q) for p, q in zip(a, b)], [k.arr(p, q) for p, q in zip(c, d)]
    keep = [list(q) for q in X + V]
    I = P.eci
    for name in ("eci2ecef", "ecef2eci"):
        f, g = getattr(I, name), getattr(I, name + "_state")
        r = f(*X, t, **e)
        q = g(*X, *V, t, **e)
        for i, (p, v) in enumerate(((a, c), (b, d))):
            k.vec(f"{name}[{i}]", [r[j][i] for j in range(3)], f(*p, t, **e), scale=sc)
            k.vec(f"{name}_state[{i}]", [q[j][i] for j in range(6)], g(*p, *v, t, **e), scale=sc)
        k.true(name + ": shape kept", all(tuple(o.shape) == (2,) for o in list(r) + list(q)))
    for q, old in zip(X + V, keep):
        for i in range(2):
            k.true("inputs unchanged", q[i] is old[i] if k.symbolic else q[i] == old[i])


# ---------------------------------------------------------------- C20
BEFORE = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
LENGTH = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def day_number(k, y, m, d):
    """days since 0001-01-01 in the proleptic Gregorian calendar (the leap day counted from the years before)"""
    def years(n):           # days in years 1 .. n-1
        n = n - 1
        return 365 * n + k.floor(n / 4) - k.floor(n / 100) + k.floor(n / 400)
    if m > 2:               # count back from the start of the next year, where the leap day of this one is settled
        return years(y + 1) - (365 - BEFORE[m - 1]) + d - 1
    return years(y) + BEFORE[m - 1] + d - 1


def calendar_case(m):
    def h(P, k):
        from fractions import Fraction
        y = k.integer("year", 1, 9998)
        d = k.integer("day", 1, LENGTH[m - 1] if m != 2 else 29)
        H, M, S, U = k.integer("hour", 0, 23), k.integer("minute", 0, 59), k.integer("second", 0, 59), k.integer("microsecond", 0, 999999)
        t = k.date(y, m, d, H, M, S, U)
        frac = ((H * 60 + M) * 60 + S + U * k.const("1/1000000")) / 86400
        want = day_number(k, y, m, d) + k.const("1721425.5") + frac
        k.eq("juliandate", P.earth_orientation.juliandate(t), want, 1e-9, atol=1e-9 if not k.symbolic else 0)
        k.eq("sidereal.juliandate", P.sidereal.juliandate(t), want, 1e-9)
        n = k.date(y, m, d, H, M, S, U, naive=True)
        k.eq("a naive time is UTC", P.earth_orientation.juliandate(n), want, 1e-9)
        r = P.sidereal.juliandate([t, n])
        k.true("a list in, a list out", isinstance(r, list) and len(r) == 2)
        k.vec("juliandate of a list", r, [want, want], 1e-9)
    return h


for _m in range(1, 13):
    CASES.case("C20", BOTH, name=f"julian_date_month_{_m}", overrides=faketime, bounds="years 1 to 9998, every day of the month and microsecond of the day; times in UTC")(calendar_case(_m))


@CASES.case("C20", BOTH, overrides=faketime, bounds="every instant 1960 to 2099 (real seconds)")
def leap_second_table(P, k):
    t = k.time("t", *DATES)
    s = k.seconds(t)
    n = tai_utc(k, s)
    E = P.earth_orientation
    k.eq("TAI-UTC", E.leap_seconds(t), n)
    tt = E.utc_to_tt(t)
    k.eq("TT-UTC is TAI-UTC + 32.184 s", k.seconds(tt) - s, n + k.const("32.184"), tol=2e-6)


@CASES.case("C20", BOTH, overrides=faketime, bounds="every instant 1960 to 2099 in every fixed-offset time zone; the calendar part of juliandate uninterpreted")
def time_zones(P, k):
    k.opaque_trig()
    k.stub_julian(P)
    t = k.time("t", *DATES)
    off = k.integer("offset", -840, 840)
    E, S = P.earth_orientation, P.sidereal
    z = k.in_zone(t, off)
    k.eq("same instant", k.seconds(z), k.seconds(t), tol=1e-12)
    lon, d = k.angle("lon"), k.real("dut1", -1, 1)
    k.eq("leap_seconds", E.leap_seconds(z), E.leap_seconds(t))
    k.eq("ensure_utc keeps the instant", k.seconds(E.ensure_utc(z)), k.seconds(t), tol=1e-12)
    k.eq("ensure_utc of a naive time", k.seconds(E.ensure_utc(t)), k.seconds(t), tol=1e-12)
    k.eq("utc_with_offset", k.seconds(E.utc_with_offset(z, d)) - k.seconds(t), d, tol=2e-6, scale=1)
    k.eq("juliandate", S.juliandate(z), S.juliandate(t), 1e-12)
    k.ang("datetime2sidereal", S.datetime2sidereal(z, lon, delta_ut1=d), S.datetime2sidereal(t, lon, delta_ut1=d), tol=1e-8)


@CASES.case("C20", BOTH, overrides=faketime, bounds="every Julian date within 2.5e6 days of J2000; angles of sums uninterpreted inside sine and cosine")
def mean_sidereal_time(P, k):
    k.opaque_trig()
    jd = k.real("jd", 0, 5000000, sample=lambda r, s: r.uniform(2400000, 2500000))
    t = (jd - 2451545) / 36525
    want = (k.const("67310.54841") + k.const("3164400184.812866") * t + k.const("0.093104") * t * t - k.const("0.0000062") * t * t * t) * k.pi / 43200
    E, S = P.earth_orientation, P.sidereal
    for name, g in (("greenwich_mean_sidereal_time", E.greenwich_mean_sidereal_time(jd)), ("greenwichsrt", S.greenwichsrt(jd))):
        k.ang(name, g, want, tol=1e-8)
        k.between(name, g, 0, 2 * k.pi, tol=1e-15, hi_open=True)
    r = S.greenwichsrt([jd, jd + 1])
    k.true("greenwichsrt of a list", isinstance(r, list) and len(r) == 2)
    k.eq("first of a list", r[0], S.greenwichsrt(jd))
    k.eq("second of a list", r[1], S.greenwichsrt(jd + 1))


@CASES.case("C20", BOTH, overrides=faketime, bounds="every instant 1960 to 2099, longitudes within a turn, |UT1-UTC| at most 1 s; the calendar part of juliandate and leap seconds uninterpreted; angles of sums uninterpreted inside sine and cosine")
def local_sidereal_time(P, k):
    k.opaque_trig()
    k.stub_julian(P)
    k.stub(P, "earth_orientation.leap_seconds", 0)
    t, lon, d = k.time("t", *DATES), k.angle("lon", -2, 2), k.real("dut1", -1, 1)
    a = earth_angles(k, k.seconds(t), dict(delta_ut1=d, xp=0, yp=0), P.earth_orientation.leap_seconds(t))
    S = P.sidereal
    g = S.datetime2sidereal(t, lon, delta_ut1=d)
    k.ang("apparent sidereal time plus longitude", g, a["gast"] + lon, tol=1e-8)
    k.between("sidereal time", g, 0, 2 * k.pi, tol=1e-15, hi_open=True)
    k.ang("delta_ut1 defaults to zero", S.datetime2sidereal(t, lon), S.datetime2sidereal(t, lon, delta_ut1=0.0))
    k.ang("force_non_astropy", S.datetime2sidereal(t, lon, True, delta_ut1=d), g)
    later = t + k.timespan(3600)
    r = S.datetime2sidereal([t, later], lon, delta_ut1=d)
    k.true("a list in, a list out", isinstance(r, list) and len(r) == 2)
    k.ang("first of a list", r[0], g)
    k.ang("second of a list", r[1], S.datetime2sidereal(later, lon, delta_ut1=d))
    if k.numpy:
        k.ang("datetime64", S.datetime2sidereal(k.datetime64(t), lon, delta_ut1=d), g, tol=1e-8)


# ---------------------------------------------------------------- C21
def sky(k, P):
    k.stub(P, "sidereal.datetime2sidereal", 0, (0,))
    t, d = k.time("t", *DATES), k.real("dut1", -1, 1)
    lat, lon = k.latitude("lat", True), k.angle("lon", deg=True)
    lst = P.sidereal.datetime2sidereal(t, k.rad(lon, True), delta_ut1=d)
    return lat, lon, t, d, lst


def to_sky(P, k, mod):
    lat, lon, t, d, lst = sky(k, P)
    az, el = k.angle("az", 0, 2, True), k.latitude("el", True)
    ra, dec = getattr(P, mod).azel2radec(az, el, lat, lon, t, delta_ut1=d)
    a, e, f = k.rad(az, True), k.rad(el, True), k.rad(lat, True)
    E, N, U = k.cos(e) * k.sin(a), k.cos(e) * k.cos(a), k.sin(e)
    H, D = lst - k.rad(ra, True), k.rad(dec, True)
    k.eq("sine of the declination", k.sin(D), U * k.sin(f) + N * k.cos(f), 1e-9, scale=1)
    k.eq("towards the west", k.cos(D) * k.sin(H), -E, 1e-8, scale=1)
    k.eq("towards the equator", k.cos(D) * k.cos(H), U * k.cos(f) - N * k.sin(f), 1e-8, scale=1)
    k.between("right ascension", ra, 0, 360, tol=1e-15, hi_open=True)
    k.between("declination", dec, -90, 90, tol=1e-15)


def from_sky(P, k, mod):
    lat, lon, t, d, lst = sky(k, P)
    ra, dec = k.angle("ra", 0, 2, True), k.latitude("dec", True)
    az, el = getattr(P, mod).radec2azel(ra, dec, lat, lon, t, delta_ut1=d)
    H, D, f = lst - k.rad(ra, True), k.rad(dec, True), k.rad(lat, True)
    a, e = k.rad(az, True), k.rad(el, True)
    k.eq("sine of the elevation", k.sin(e), k.sin(f) * k.sin(D) + k.cos(f) * k.cos(D) * k.cos(H), 1e-8, scale=1)
    k.eq("east", k.cos(e) * k.sin(a), -k.cos(D) * k.sin(H), 1e-8, scale=1)
    k.eq("north", k.cos(e) * k.cos(a), k.sin(D) * k.cos(f) - k.cos(D) * k.sin(f) * k.cos(H), 1e-8, scale=1)
    k.between("azimuth", az, 0, 360, tol=1e-15, hi_open=True)
    k.between("elevation", el, -90, 90, tol=1e-15)


def options(P, k):
    lat, lon, t, d, lst = sky(k, P)
    az, el = k.angle("az", 0, 2, True), k.latitude("el", True)
    for f in ("azel2radec", "radec2azel"):
        g, v = getattr(P.azelradec, f), getattr(P.vallado, f)
        k.vec(f"azelradec.{f} without astropy", g(az, el, lat, lon, t, delta_ut1=d), v(az, el, lat, lon, t, delta_ut1=d), scale=1)
        k.vec(f"azelradec.{f} force_non_astropy", g(az, el, lat, lon, t, True, delta_ut1=d), v(az, el, lat, lon, t, delta_ut1=d), scale=1)
        k.vec(f"{f}: delta_ut1 defaults to zero", v(az, el, lat, lon, t), v(az, el, lat, lon, t, delta_ut1=0.0), scale=1)
        for bad in (90.5, -91, 1e9):
            k.raises(f"{f}: latitude {bad}", ValueError, lambda: v(az, el, bad, lon, t))
            k.raises(f"azelradec.{f}: latitude {bad}", ValueError, lambda: g(az, el, bad, lon, t))


for _m in ("vallado", "azelradec"):
    for _f in (to_sky, from_sky):
        CASES.case("C21", BOTH, name=f"{_f.__name__}_{_m}", overrides=faketime, bounds="all directions, latitudes within +-90 degrees, longitudes, times; sidereal time uninterpreted (decided by C20)")(
            lambda P, k, f=_f, m=_m: f(P, k, m))
CASES.case("C21", BOTH, name="options", overrides=faketime, bounds="as above; three latitudes beyond the poles")(options)


@CASES.case("C21", BOTH, name="round_trips", overrides=faketime, bounds="all directions and latitudes; sidereal time uninterpreted")
def sky_round_trips(P, k):
    lat, lon, t, d, lst = sky(k, P)
    az, el = k.angle("az", 0, 2, True), k.latitude("el", True)
    ra, dec = P.azelradec.azel2radec(az, el, lat, lon, t, delta_ut1=d)
    z, e = P.azelradec.radec2azel(ra, dec, lat, lon, t, delta_ut1=d)
    a, b = [(k.cos(k.rad(y, True)) * k.sin(k.rad(x, True)), k.cos(k.rad(y, True)) * k.cos(k.rad(x, True)), k.sin(k.rad(y, True))) for x, y in ((az, el), (z, e))]
    k.vec("direction after the round trip", b, a, 1e-8, scale=1)


# ---------------------------------------------------------------- C22
@both("C22", bounds="all pairs of directions (latitudes within +-90 degrees)")
def angular_separation(P, k, deg):
    a, b = k.latitude("lat0", deg), k.latitude("lat1", deg)
    l, m = k.angle("lon0", deg=deg), k.angle("lon1", deg=deg)
    u, v = [[k.cos(k.rad(p, deg)) * k.cos(k.rad(q, deg)), k.cos(k.rad(p, deg)) * k.sin(k.rad(q, deg)), k.sin(k.rad(p, deg))] for p, q in ((a, l), (b, m))]
    k.fact(k.norm2([x + y for x, y in zip(u, v)]))
    k.fact(k.norm2([x - y for x, y in zip(u, v)]))
    c = dot(u, v)
    H = P.haversine
    s = H.anglesep_meeus(l, a, m, b, deg=deg)
    g = H.anglesep(l, a, m, b, deg=deg)
    for name, x in (("anglesep_meeus", s), ("anglesep", g), ("anglesep forced", H.anglesep(l, a, m, b, deg, True)), ("anglesep_meeus exchanged", H.anglesep_meeus(m, b, l, a, deg=deg)),
                    ("anglesep exchanged", H.anglesep(m, b, l, a, deg=deg))):
        k.eq(name + " is the angle between the directions", k.cos(k.rad(x, deg)), c, 1e-9, scale=1)
        k.between(name, x, 0, k.turn(deg) / 2, tol=1e-12)
    k.eq("haversine", H.haversine(k.rad(l, deg)), (1 - k.cos(k.rad(l, deg))) / 2, 1e-12, scale=1)
    k.eq("no angle between equal directions", H.anglesep(l, a, l, a, deg=deg), 0, 1e-7, scale=1)

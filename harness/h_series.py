"""C12: latitudes computed by truncated series, against their defining relations (enclosure engine)"""
from reg import Registry

CASES = Registry()
case = CASES.case
PI2 = 1.5707963267948966
# Gauss-Legendre, 10 nodes on [-1, 1]
GL = [(-0.9739065285171717, 0.06667134430868814), (-0.8650633666889845, 0.14945134915058059), (-0.6794095682990244, 0.21908636251598204),
      (-0.4333953941292472, 0.26926671930999635), (-0.14887433898163122, 0.29552422471475287)]
GL = GL + [(-x, w) for x, w in GL]

def poles(inner):
    """latitudes: a grid that is geometric in the distance from the poles"""
    c = inner
    out = []
    while c < 20:
        out.append(90 - c)
        c *= 1.6
    out = sorted(out)
    return [-x for x in reversed(out)] + [-60, -45, -30, -15, -5, 5, 15, 30, 45, 60] + out


LATS = poles(0.01)
ECC = [0.002, 0.004, 0.008, 0.015, 0.025, 0.04, 0.06, 0.083]      # flattening 2e-6 .. 1/290
VARS = [dict(name="lat", breaks=LATS), dict(name="e", breaks=ECC)]
VARS2 = [dict(name="lat", breaks=poles(0.05)), dict(name="e", breaks=ECC)]
BOTH = ("numpy", "stdlib")
NOTE = "any ellipsoid of eccentricity 0.002 to 0.083 (flattening 2e-6 to 1/290), latitude at least 0.01 (conformal, isometric: 0.05) degree from the poles"


def setup(P, k, a=6378137.0):
    lat, e = k.var("lat"), k.var("e")
    if k.numpy and not k.symbolic:
        lat = k.np.float64(lat)
    b = a * k.sqrt(1 - e * e)
    return lat, lat * (k.pi / 180), e, P.ellipsoid.Ellipsoid(a, b)


def integral(k, f, lo, hi, n=1):
    """composite Gauss-Legendre quadrature"""
    h = (hi - lo) * (0.5 / n)
    t = 0
    for j in range(n):
        m = lo + h * (2 * j + 1)
        for x, w in GL:
            t = t + w * f(m + h * x)
    return t * h


@case("C12", modes=BOTH, engine="boxes", vars=VARS2, bounds=NOTE)
def conformal_definition(P, k):
    lat, phi, e, ell = setup(P, k)
    chi = P.latitude.geodetic2conformal(lat, ell) * (k.pi / 180)
    s = k.sin(phi)
    psi = k.asinh(k.tan(phi)) - e * k.atanh(e * s)
    k.eq("sine of the conformal latitude is tanh of the isometric latitude", k.sin(chi), k.tanh(psi), atol=1e-9, tol=0)
    k.eq("cosine of the conformal latitude is sech of the isometric latitude", k.cos(chi), 1 / k.cosh(psi), atol=1e-9, tol=0)
    k.eq("degrees and radians agree", P.latitude.geodetic2conformal(phi, ell, deg=False), chi, tol=0, atol=1e-9)


@case("C12", modes=BOTH, engine="boxes", vars=VARS2, bounds=NOTE)
def conformal_inverse(P, k):
    lat, phi, e, ell = setup(P, k)
    L = P.latitude
    k.eq("conformal back to geodetic (degrees)", L.conformal2geodetic(L.geodetic2conformal(lat, ell), ell) * (k.pi / 180), phi, tol=0, atol=1e-9)
    k.eq("conformal back to geodetic (radians)", L.conformal2geodetic(L.geodetic2conformal(phi, ell, deg=False), ell, deg=False), phi, tol=0, atol=1e-9)


@case("C12", modes=BOTH, engine="boxes", vars=VARS2, bounds=NOTE)
def isometric_definition(P, k):
    lat, phi, e, ell = setup(P, k)
    s = k.sin(phi)
    psi = k.log(k.tan(k.pi / 4 + phi * 0.5)) - e * 0.5 * k.log((1 + e * s) / (1 - e * s))
    k.eq("isometric latitude", P.latitude.geodetic2isometric(phi, ell, deg=False), psi, tol=0, atol=1e-9)
    k.eq("isometric latitude (degrees)", P.latitude.geodetic2isometric(lat, ell) * (k.pi / 180), psi, tol=0, atol=1e-9)


@case("C12", modes=BOTH, engine="boxes", vars=VARS2, bounds=NOTE)
def isometric_inverse(P, k):
    lat, phi, e, ell = setup(P, k)
    L = P.latitude
    k.eq("isometric back to geodetic", L.isometric2geodetic(L.geodetic2isometric(lat, ell), ell) * (k.pi / 180), phi, tol=0, atol=1e-9)
    k.eq("isometric back to geodetic (radians)", L.isometric2geodetic(L.geodetic2isometric(phi, ell, deg=False), ell, deg=False), phi, tol=0, atol=1e-9)


@case("C12", modes=BOTH, engine="boxes", vars=VARS, bounds=NOTE)
def rectifying_definition(P, k):
    lat, phi, e, ell = setup(P, k)
    mu = P.latitude.geodetic2rectifying(lat, ell) * (k.pi / 180)
    e2 = e * e

    def dm(t):
        s = k.sin(t)
        return (1 - e2 * s * s) ** (-1.5)
    full = integral(k, dm, 0.0, PI2)
    k.eq("rectifying latitude is proportional to the meridian arc", mu * full, PI2 * integral(k, dm, 0.0, phi), tol=0, atol=1e-9)
    k.eq("degrees and radians agree", P.latitude.geodetic2rectifying(phi, ell, deg=False), mu, tol=0, atol=1e-9)


@case("C12", modes=BOTH, engine="boxes", vars=VARS, bounds=NOTE)
def rectifying_inverse(P, k):
    lat, phi, e, ell = setup(P, k)
    L = P.latitude
    k.eq("rectifying back to geodetic", L.rectifying2geodetic(L.geodetic2rectifying(lat, ell), ell) * (k.pi / 180), phi, tol=0, atol=1e-9)
    k.eq("rectifying back to geodetic (radians)", L.rectifying2geodetic(L.geodetic2rectifying(phi, ell, deg=False), ell, deg=False), phi, tol=0, atol=1e-9)


@case("C12", modes=BOTH, engine="boxes", vars=VARS, bounds=NOTE)
def authalic_definition(P, k):
    lat, phi, e, ell = setup(P, k)
    beta = P.latitude.geodetic2authalic(lat, ell) * (k.pi / 180)

    def q(s):
        return (1 - e * e) * (s / (1 - e * e * s * s) + k.atanh(e * s) / e)
    d = k.sin(beta) * q(1.0) - q(k.sin(phi))
    k.eq("the area from the equator is proportional to the sine of the authalic latitude", d / (2 * k.cos(phi)), 0, tol=0, atol=2e-9)
    k.eq("degrees and radians agree", P.latitude.geodetic2authalic(phi, ell, deg=False), beta, tol=0, atol=1e-9)


@case("C12", modes=BOTH, engine="boxes", vars=VARS, bounds=NOTE)
def authalic_inverse(P, k):
    lat, phi, e, ell = setup(P, k)
    L = P.latitude
    k.eq("authalic back to geodetic", L.authalic2geodetic(L.geodetic2authalic(lat, ell), ell) * (k.pi / 180), phi, tol=0, atol=1e-9)
    k.eq("authalic back to geodetic (radians)", L.authalic2geodetic(L.geodetic2authalic(phi, ell, deg=False), ell, deg=False), phi, tol=0, atol=1e-9)


PAIRS = [("geodetic2conformal", "conformal2geodetic"), ("geodetic2rectifying", "rectifying2geodetic"), ("geodetic2authalic", "authalic2geodetic"),
         ("geodetic2parametric", "parametric2geodetic")]


@case("C12", modes=BOTH, engine="boxes", vars=[dict(name="e", breaks=ECC)], bounds="any ellipsoid of eccentricity 0.002 to 0.083; the poles and the equator")
def series_fixed_points(P, k):
    e = k.var("e")
    ell = P.ellipsoid.Ellipsoid(6378137.0, 6378137.0 * k.sqrt(1 - e * e))
    for fwd, back in PAIRS:
        for lat in (-90.0, 0.0, 90.0):
            v = k.np.float64(lat) if k.numpy and not k.symbolic else lat
            k.eq(f"{fwd} at {lat}", getattr(P.latitude, fwd)(v, ell), lat, tol=0, atol=1e-9)
            k.eq(f"{back} at {lat}", getattr(P.latitude, back)(v, ell), lat, tol=0, atol=1e-9)
    k.eq("isometric at the equator", P.latitude.geodetic2isometric(0.0, ell), 0.0, tol=0, atol=1e-12)
    k.eq("isometric back at the equator", P.latitude.isometric2geodetic(0.0, ell), 0.0, tol=0, atol=1e-12)

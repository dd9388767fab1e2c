"""planted bugs: edits of src/pymap3d files, each with a demonstration"""
PLANTS = [
 dict(id="b01-trim", property="C05",
  edits=[("enu.py", "threshold: float = 1e-3)", "threshold: float = 1e-1)")],
  needs="plain float arguments and an ENU component of less than 10 cm",
  breaks="enu2aer of plain floats drops components of up to 10 cm: azimuth of a target with a small east component is wrong",
  demo='''
import math
from pymap3d.enu import enu2aer
az, el, r = enu2aer(0.08, 0.5, 0.0)
assert abs(az - math.degrees(math.atan2(0.08, 0.5))) < 1e-6, az
'''),
 dict(id="b02-body-sez", property="C07",
  edits=[("frames.py", "        local2body = _sez2body_rotation(yaw, pitch, roll, sequence=sequence, deg=deg)\n", "        local2body = _sez2body_rotation(yaw, pitch, roll, sequence=sequence)\n")],
  needs="body vectors through the SEZ frame with deg=False",
  breaks="ecef2bodyv/body2ecefv with frame='sez' read radians as degrees",
  demo='''
from pymap3d.body import ecef2bodyv
a = ecef2bodyv(1.0, 2.0, 3.0, 0.3, 0.4, 0.5, 0.6, 0.7, frame="sez", deg=False)
b = ecef2bodyv(1.0, 2.0, 3.0, 0.3, 0.4, 0.5, 0.6, 0.7, frame="enu", deg=False)
assert all(abs(x - y) < 1e-9 for x, y in zip(a, b)), (a, b)
'''),


 dict(id="b03-rate-pm", property="C19", py="venv-stdlib",
  edits=[("earth_orientation.py", "    c_minus = eci_to_ecef_matrix(time - dt, delta_ut1=delta_ut1, xp=xp, yp=yp)", "    c_minus = eci_to_ecef_matrix(time - dt, delta_ut1=delta_ut1, xp=xp)")],
  needs="a state conversion with non-zero yp",
  breaks="the rotation rate is not the derivative of the rotation when yp is not zero, so transported velocities are wrong",
  demo="""
from datetime import datetime, timedelta
from pymap3d.eci import eci2ecef_state, eci2ecef
p, v = (7e6, -2e6, 3e6), (1e3, 7e3, -2e3)
t = datetime(2020, 3, 4, 5, 6, 7)
kw = dict(xp=0.1, yp=0.3)
a = eci2ecef(*[x + u for x, u in zip(p, v)], t + timedelta(seconds=1), **kw)
b = eci2ecef(*[x - u for x, u in zip(p, v)], t - timedelta(seconds=1), **kw)
s = eci2ecef_state(*p, *v, t, **kw)
assert all(abs((x - y) / 2 - w) < 0.05 for x, y, w in zip(a, b, s[3:])), (a, b, s)
"""),


 dict(id="b04-los-ell", property="C15", py="venv-stdlib",
  edits=[("los.py", "lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, ell, deg=deg)", "lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, deg=deg)")],
  needs="an ellipsoid other than WGS84",
  breaks="the intersection found on the given ellipsoid is converted to geodetic coordinates of WGS84",
  demo="""
from pymap3d.los import lookAtSpheroid
from pymap3d.ecef import geodetic2ecef
from pymap3d.ellipsoid import Ellipsoid
from pymap3d.aer import ecef2aer
e = Ellipsoid.from_name("mars")
lat, lon, d = lookAtSpheroid(45.0, 90.0, 800e3, 0.0, 40.0, e)
x = geodetic2ecef(lat, lon, 0, e)
az, el, r = ecef2aer(*x, 45.0, 90.0, 800e3, e)
assert abs(r - d) < 1.0, (r, d)
"""),
 dict(id="b05-nvec-interp", property="C11",
  edits=[("nvector.py", "    if abs(omega) < 1e-10:", "    if abs(omega) < 1e-1:")],
  needs="end points within 6 degrees of each other and a fraction other than 0, 1/2, 1",
  breaks="nvector_interpolate is not uniform along the great circle for close points",
  demo="""
import math
from pymap3d.nvector import nvector_interpolate
w = 0.09
v = nvector_interpolate(1.0, 0.0, 0.0, math.cos(w), math.sin(w), 0.0, 0.25)
assert abs(math.atan2(v[1], v[0]) - 0.25 * w) < 1e-9, v
"""),
 dict(id="b06-jd-century", property="C20", py="venv-stdlib",
  edits=[("earth_orientation.py", "    B = 2 - A + int(A / 4.0)\n", "    B = 2 - A + int(time.year / 400.0)\n")],
  needs="a date in January or February of a year divisible by 400 (2000-01-01 ... 2000-02-29)",
  breaks="juliandate is off by one day in the first two months of years divisible by 400",
  demo="""
from datetime import datetime
from pymap3d.sidereal import juliandate
for d in (datetime(2000, 1, 15), datetime(2000, 3, 15), datetime(1999, 7, 1)):
    want = d.toordinal() + 1721424.5
    assert abs(juliandate(d) - want) < 1e-6, (d, juliandate(d), want)
"""),
 dict(id="b07-leap-boundary", property="C20", py="venv-stdlib",
  edits=[("earth_orientation.py", "        if utc >= effective:", "        if utc > effective:")],
  needs="the first instant of a leap second step, e.g. 2017-01-01T00:00:00 UTC exactly",
  breaks="leap_seconds lags one step at the exact instant it takes effect",
  demo="""
from datetime import datetime
from pymap3d.earth_orientation import leap_seconds
assert leap_seconds(datetime(2017, 1, 1)) == 37
assert leap_seconds(datetime(2016, 12, 31, 23, 59, 59)) == 36
"""),
 dict(id="b08-az-wrap", property="C21", py="venv-stdlib",
  edits=[("vallado.py", "    return degrees(lst - lha) % 360, degrees(dec)", "    ra = degrees(lst - lha)\n    return ra + 360 if ra < 0 else ra, degrees(dec)")],
  needs="a local hour angle negative enough that sidereal time minus it exceeds a full turn",
  breaks="right ascension of 360 degrees or more is returned",
  demo="""
from datetime import datetime
from pymap3d.vallado import azel2radec
for h in range(24):
    for az in range(0, 360, 15):
        ra, dec = azel2radec(az, 20.0, 40.0, -80.0, datetime(2014, 4, 6, h))
        assert 0 <= ra < 360, (h, az, ra)
"""),
 dict(id="b09-parallel-ell", property="C13",
  edits=[("rcurve.py", "    f2 = 1 - (ell.eccentricity * sin(lat)) ** 2\n    return f1 / sqrt(f2**3)", "    f2 = 1 - (resolve_ellipsoid(None).eccentricity * sin(lat)) ** 2\n    return f1 / sqrt(f2**3)")],
  needs="an ellipsoid other than WGS84, away from the equator",
  breaks="the meridian radius of curvature uses the eccentricity of WGS84 for every ellipsoid",
  demo="""
from pymap3d.rcurve import meridian
from pymap3d.ellipsoid import Ellipsoid
e = Ellipsoid(6378137.0, 6000000.0)
want = 6378137.0 ** 2 / 6000000.0      # polar radius of curvature
assert abs(meridian(90.0, e) - want) < 1e-3, meridian(90.0, e)
"""),
 dict(id="b10-ecefnvec", property="C11",
  edits=[("nvector.py", "    return geodetic2ecef(lat, lon, alt, ell=ell, deg=deg)", "    return geodetic2ecef(lat, lon, alt, deg=deg)")],
  needs="nvector2ecef with an ellipsoid other than WGS84",
  breaks="nvector2ecef ignores the ellipsoid",
  demo="""
from pymap3d.nvector import nvector2ecef
from pymap3d.ellipsoid import Ellipsoid
p = nvector2ecef(1.0, 0.0, 0.0, 0.0, Ellipsoid.from_name("mars"))
assert abs(p[0] - 3396900.0) < 1e-6, p
"""),
 dict(id="b11-dca-rad", property="C09",
  edits=[("dca.py", "    e, n, u = dca2enu(dr, cr, above, heading, deg=deg)\n    return enu2geodetic(e, n, u, lat0, lon0, h0, ell, deg=deg)", "    e, n, u = dca2enu(dr, cr, above, heading, deg=deg)\n    return enu2geodetic(e, n, u, lat0, lon0, h0, ell)")],
  needs="dca2geodetic with deg=False",
  breaks="dca2geodetic reads and returns degrees even with deg=False",
  demo="""
import math
from pymap3d.dca import dca2geodetic
a = dca2geodetic(10.0, 20.0, 30.0, 40.0, 50.0, 60.0, 70.0)
r = math.radians
b = dca2geodetic(10.0, 20.0, 30.0, r(40.0), r(50.0), 60.0, r(70.0), deg=False)
assert abs(r(a[0]) - b[0]) < 1e-9 and abs(r(a[1]) - b[1]) < 1e-9, (a, b)
"""),
 dict(id="b12-sph-mean", property="C14",
  edits=[("rsphere.py", "    latmid = lat1 + (lat2 - lat1) / 2", "    latmid = abs(lat1) + (abs(lat2) - abs(lat1)) / 2")],
  needs="points on both sides of the equator, not symmetric to it",
  breaks="euler radius is evaluated at the wrong mid latitude across the equator",
  demo="""
from pymap3d.rsphere import euler
from pymap3d.rcurve import meridian
r = euler(-30.0, 0.0, 50.0, 0.0)
assert abs(r - meridian(10.0)) < 1.0, (r, meridian(10.0))
"""),
 dict(id="b13-mutate", property="C24",
  edits=[("los.py", "    el = tilt - 90.0 if deg else tilt - pi / 2", "    el = tilt\n    el -= 90.0 if deg else pi / 2")],
  needs="a NumPy array as tilt, looked at after the call",
  breaks="lookAtSpheroid changes the caller's tilt array in place",
  demo="""
import numpy as np
from pymap3d.los import lookAtSpheroid
tilt = np.array([10.0, 20.0])
lookAtSpheroid(np.array([1.0, 2.0]), np.array([3.0, 4.0]), np.array([1e3, 1e3]), np.array([5.0, 6.0]), tilt)
assert (tilt == [10.0, 20.0]).all(), tilt
"""),

 dict(id="b14-haversine", property="C22", py="venv-stdlib",
  edits=[("haversine.py", "    return (1 - cos(theta)) / 2.0", "    try:\n        if abs(theta) < 0.05:\n            return theta**2 / 4.0\n    except ValueError:\n        pass\n    return (1 - cos(theta)) / 2.0")],
  needs="plain floats with latitudes or longitudes less than three degrees apart",
  breaks="a truncated series is used for small angles: the separation is off by up to 1e-4 relative",
  demo="""
from pymap3d.haversine import anglesep_meeus
a = anglesep_meeus(0.0, 0.0, 2.8, 0.0)
assert abs(a - 2.8) < 1e-6, a
"""),
]

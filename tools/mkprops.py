"""writes /verif/properties.jsonl (one place to keep the statements; run by hand after editing)"""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/pymap3d/" + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


I = ["inputs"]
IC = ["inputs", "configurations"]

prop("C01", "Geodetic coordinates map to the exact point above the ellipsoid",
     "For every latitude in [-90, 90] degrees, longitude, altitude and ellipsoid of revolution, geodetic2ecef returns the point whose foot lies on the ellipsoid, at signed distance alt from the foot along the outward ellipsoid normal, in the meridian half-plane of the longitude. The scalar, array and no-NumPy forms agree.",
     IC, "all latitudes, longitudes, altitudes, all ellipsoids a>=b>0, degrees and radians, scalar/array, with and without numpy",
     "Tests sample a handful of points on WGS84 and compare to stored digits; they cannot show the relation for every latitude/altitude/ellipsoid.",
     ["ecef.py"], [("geodetic2ecef", "ecef.py")], ["pymap3d.geodetic2ecef"])

prop("C02", "ECEF to geodetic inverts geodetic to ECEF",
     "For every point with latitude in [-90, 90], any longitude and altitude between -5 km and 400 km above an Earth-like ellipsoid, ecef2geodetic(geodetic2ecef(lat, lon, alt)) returns the same latitude to 1e-8 degree (from there up to 36000 km to 1.3e-4 degree), longitude to 1e-9 degree (away from the poles) and altitude to 1 mm, for scalars and for arrays mixing inside and outside points, with and without numpy. Points on the polar axis and on the equatorial plane give exactly +-90 / 0 latitude and the right altitude.",
     IC, "all latitudes, longitudes, altitudes in the stated range; scalar, array and no-numpy code paths; degrees and radians",
     "Tests round-trip a few points; the inside/outside, pole, equator and array branches are each hit by one or two samples.",
     ["ecef.py"], [("ecef2geodetic", "ecef.py"), ("_beta_numpy/_beta_scalar", "ecef.py")], ["pymap3d.ecef2geodetic"])

prop("C03", "Local tangent-plane frames are orthonormal and invertible",
     "For every observer, ENU, NED, NWU and SEZ vectors convert to ECEF and back without change, conversions preserve length, the up axis is the outward ellipsoid normal and the east axis is perpendicular to the polar axis. Point conversions differ from vector conversions only by the observer's ECEF position, and rotation matrices returned by the library equal the vector conversions.",
     IC, "all observers (lat, lon, h), all vectors/points, all ellipsoids, degrees and radians, scalars and arrays",
     "Tests check a few fixed observers on WGS84; a sign or transposed term can vanish at sampled longitudes.",
     ["enu.py", "ned.py", "nwu.py", "sez.py", "ecef.py", "frames.py"],
     [("enu2uvw/uvw2enu/ecef2enuv", "ecef.py"), ("rotation matrices", "frames.py")], ["enu2ecef", "ecef2enu", "ecef2ned", "ned2ecef"])

prop("C04", "NED, NWU and SEZ are signed axis permutations of ENU",
     "For every input, each NED, NWU and SEZ conversion function returns exactly the ENU result with the axes renamed (NED: n, e, -u; NWU: n, -e, u; SEZ: -n, e, u), whichever route (geodetic, AER, ECEF or vector) is used and whatever ellipsoid and angle unit are passed.",
     IC, "all inputs of every ned/nwu/sez function, all ellipsoids, deg True/False",
     "Tests compare one AER/geodetic sample per function, so an ignored argument or swapped axis on an untested route is invisible.",
     ["ned.py", "nwu.py", "sez.py", "frames.py"], [("wrappers", "ned.py"), ("wrappers", "nwu.py"), ("wrappers", "sez.py")], ["aer2ned", "geodetic2ned", "ned2geodetic"])

prop("C05", "Azimuth, elevation, range and ENU are inverse conversions",
     "For every ENU vector, enu2aer gives slant range equal to its length, elevation in [-90, 90], azimuth in [0, 360) measured clockwise from north, and aer2enu recovers the vector (components below 1 mm may be treated as zero); conversely aer2enu gives the vector of length r in the direction of az and el. The planar polar and the spherical helpers (cart2pol/pol2cart, cart2sph/sph2cart) invert each other in the same way.",
     I, "all finite ENU vectors; all azimuths, elevations in [-90,90], ranges >= 0; degrees and radians; scalar and array; with/without numpy",
     "Tests sample four directions; quadrant, sub-millimetre trimming and rejection branches depend on rare inputs.",
     ["enu.py"], [("enu2aer", "enu.py"), ("aer2enu", "enu.py")], ["enu2aer", "aer2enu"])

prop("C06", "Composite conversions equal the composition of their steps",
     "For all inputs, ellipsoids and angle units, every multi-step conversion (geodetic/AER/ENU/NED/ECEF/ECI in any pairing) equals the composition of the elementary conversions with the same ellipsoid, unit, time and Earth-orientation arguments passed to every step. In particular converting a target to a local frame and back returns the target, and the result does not depend on the route.",
     IC, "all inputs of aer2geodetic, geodetic2aer, ecef2aer, aer2ecef, geodetic2enu, enu2geodetic, geodetic2ned, ned2geodetic, aer2ned, aer2eci, eci2aer, geodetic2eci, eci2geodetic, with every optional argument",
     "Tests use default ellipsoid and degrees almost everywhere; a dropped ell/deg/orientation argument on one route is not exercised.",
     ["aer.py", "enu.py", "ned.py", "eci.py", "nwu.py", "sez.py"], [("composites", "aer.py"), ("composites", "eci.py")], ["geodetic2aer", "aer2geodetic", "aer2eci"])

prop("C07", "Body-frame rotations are orthonormal, invertible and self-consistent",
     "For every yaw, pitch and roll, the body rotation matrices are proper rotations equal to the documented 3-2-1 sequence from NED, the matrices to and from NED, ENU, SEZ and NWU are transposes of each other and agree through the axis renaming, and vector and point conversions between body and NED/ENU/SEZ/NWU/ECEF/geodetic are the corresponding length-preserving mutual inverses. Unsupported rotation sequences and local frames are rejected with ValueError.",
     IC, "all angles, all supported sequences and frames, all observers, degrees and radians",
     "Tests check a few attitudes; sign errors vanish for zero or right angles and per-sequence branches are sampled once.",
     ["body.py"], [("rotation builders", "body.py")], ["pymap3d.body"])

prop("C08", "DCA (downrange-crossrange-above) conversions are rigid and invertible",
     "For every heading and vector, ENU to DCA is a rotation about the up axis with the downrange axis along the heading clockwise from north and the crossrange axis 90 degrees to its left (crossrange = n sin(heading) - e cos(heading)), DCA to ENU is its inverse, and the ECEF, AER, NED and geodetic DCA conversions equal the composition through ENU with the same ellipsoid and angle unit.",
     IC, "all headings, vectors, observers, ellipsoids, degrees and radians",
     "Tests sample a few headings on WGS84.",
     ["dca.py"], [("enu2dca/dca2enu", "dca.py")], ["pymap3d.dca"])

prop("C09", "Degree and radian modes describe the same conversion",
     "For every public conversion that takes a deg flag, calling it with angles in degrees and deg=True gives the same lengths, and the same angles after unit conversion, as calling it with the equivalent radians and deg=False.",
     IC, "all inputs of all functions with a deg parameter",
     "deg=False is exercised for few functions and few points.",
     ["aer.py", "ecef.py", "enu.py", "ned.py", "latitude.py", "rcurve.py", "rsphere.py", "lox.py", "vincenty.py", "haversine.py", "azelradec.py", "los.py", "nvector.py", "spherical.py", "dca.py"],
     [("deg handling", "utils.py")], ["all public functions with deg="])

prop("C10", "Spherical and geodetic coordinates convert consistently",
     "For every geodetic point, geodetic2spherical returns the geocentric latitude, unchanged longitude and geocentric radius of its ECEF position, and spherical2geodetic is its inverse on and above the ellipsoid surface.",
     IC, "all latitudes, longitudes, altitudes from -5 km to 36000 km, Earth-like ellipsoids, degrees and radians",
     "Tests check the cardinal points.",
     ["spherical.py"], [("geodetic2spherical/spherical2geodetic", "spherical.py")], ["geodetic2spherical", "spherical2geodetic"])

prop("C11", "n-vector operations are geometrically exact",
     "For all positions, the n-vector of a geodetic position is the unit ellipsoid normal and converting back returns the position; n-vector and ECEF position conversions agree with the geodetic ones; distance, interpolation and mean operations return the great-circle angle times radius, a unit vector on the connecting great circle, and a unit vector along the vector sum.",
     IC, "all latitudes/longitudes, all pairs that are not antipodal, any interpolation fraction, degrees and radians",
     "Tests sample a few pairs.",
     ["nvector.py"], [("nvector functions", "nvector.py")], ["pymap3d.nvector"])

prop("C12", "Auxiliary latitudes satisfy their definitions and invert",
     "For every latitude and ellipsoid, geocentric, parametric, authalic, conformal, rectifying and isometric latitudes satisfy their defining relation to geodetic latitude, are odd and monotone, fix the equator and (except isometric) the poles, and the reverse function returns the original latitude (within 1e-9 rad for Earth-like flattening).",
     IC, "all latitudes in [-90,90], all ellipsoids for closed forms, Earth-like flattening for series, degrees and radians, scalar/array",
     "Tests compare a few latitudes to stored values.",
     ["latitude.py"], [("geodetic2*/…2geodetic", "latitude.py")], ["pymap3d.latitude"])

prop("C13", "Radii of curvature satisfy the differential geometry of the ellipsoid",
     "For every latitude and ellipsoid, the transverse, meridian and parallel radii of curvature equal their closed forms (a^2/sqrt(a^2cos^2+b^2sin^2), a^2b^2/(...)^(3/2), N cos lat) and the geocentric radius equals the distance of the surface point from the centre, so the parallel radius is the x-distance of geodetic2ecef at zero height and the meridian radius is the arc length per radian.",
     IC, "all latitudes, all ellipsoids, degrees and radians",
     "Tests compare a few latitudes on WGS84.",
     ["rcurve.py"], [("geocentric_radius, parallel, meridian, transverse", "rcurve.py")], ["pymap3d.rcurve"])

prop("C14", "Mean sphere radii satisfy their definitions",
     "For every ellipsoid, the euler radius between two points is the radius of curvature at their mid-latitude in the azimuth of the line, curve(mean/norm), triaxial, biaxial, eqavol, authalic and rectifying sphere radii equal their documented means, and each lies between the semiminor and semimajor axis where it is a mean of them. Unknown method names raise an exception.",
     IC, "all ellipsoids a>=b>0 (rectifying/authalic: Earth-like), all latitudes and azimuths, all methods, degrees and radians",
     "Tests check WGS84 only.",
     ["rsphere.py"], [("rsphere functions", "rsphere.py")], ["pymap3d.rsphere"])

prop("C15", "Line-of-sight intersection is the nearest point of the ellipsoid on the ray",
     "For every observer at or above the ellipsoid, azimuth and tilt, lookAtSpheroid returns the geodetic position and slant range of the first point where the ray meets the ellipsoid surface (zero altitude), in front of the observer, and NaN when and only when the ray misses; a negative observer altitude is rejected with ValueError, alone or in an array.",
     IC, "all observer positions, azimuths, tilts in [0,180], ellipsoids, degrees and radians, scalar and array",
     "Tests check nadir, a few tilts and one miss on WGS84.",
     ["los.py"], [("lookAtSpheroid", "los.py")], ["lookAtSpheroid"])

prop("C16", "Loxodromes, meridian arcs and departures are mutually consistent",
     "For all positions, loxodrome_direct followed by loxodrome_inverse returns the distance and azimuth, the end point of a loxodrome along a meridian is at the meridian arc distance and along a parallel at the departure distance, the course never takes the long way round, and meanm/departure/meridian_arc agree with the radii of curvature.",
     IC, "latitudes within +-85 degrees, all longitudes and azimuths, ranges up to 5000 km, Earth-like ellipsoids, degrees and radians",
     "Tests check a few courses; antimeridian, due east/west and meridional branches hinge on special inputs.",
     ["lox.py", "latitude.py", "rcurve.py"], [("loxodrome_inverse/direct, meridian_arc, departure, meanm", "lox.py")], ["pymap3d.lox"])

prop("C17", "Vincenty distance, reckoning and track agree with geodesics",
     "For all start points, azimuths and ranges up to 15000 km, the end point computed by vreckon lies on the geodesic (its distance and azimuth by vdist match the request to 1 mm and 1e-7 degree), vdist is symmetric, zero exactly for coincident points, azimuths lie in [0, 360), and track2 points are equally spaced in angle along the great circle between its ends. Inputs with latitude beyond the poles are rejected with ValueError.",
     IC, "start points, azimuths, ranges up to 15000 km, WGS84-like ellipsoids, scalar and array, with/without numpy",
     "Tests compare a few stored lines.",
     ["vincenty.py"], [("vdist, vreckon, track2", "vincenty.py")], ["pymap3d.vincenty"])

prop("C18", "Karney geodesics satisfy the geodesic equations and invert",
     "For all start points, azimuths and distances, geodesic_direct returns the end point of the geodesic (Clairaut's relation, unit-speed meridian and parallel equations, full 3rd-order longitude/distance integrals to nanometres), geodesic_inverse returns the distance and azimuths that geodesic_direct maps back to the second point, distances are symmetric and non-negative, and geodesic_line points are consistent with geodesic_direct.",
     IC, "all start points, azimuths and distances up to 20000 km on Earth-like ellipsoids, degrees and radians",
     "Tests compare stored lines and random samples.",
     ["karney.py"], [("geodesic_direct, geodesic_inverse, geodesic_line", "karney.py")], ["pymap3d.karney"])

prop("C19", "ECI and ECEF conversions are inverse rotations consistent with velocity transport",
     "For every time, Earth-orientation input and state, eci2ecef and ecef2eci are mutually inverse rotations (length preserving), the rotation is polar motion (pole at xp, -yp) times Greenwich apparent sidereal rotation times nutation times precession of the documented IAU-76/80 reduction, positions from the position-only and state functions agree, velocities are the derivative of the rotated position (rotation plus its rate of change), so that the state conversions are mutual inverses; scalars and arrays agree.",
     IC, "all position/velocity vectors, times, delta_ut1, polar motion, scalar and array",
     "Tests check a few epochs.",
     ["eci.py", "earth_orientation.py", "sidereal.py"], [("eci2ecef, ecef2eci, *_state", "eci.py")], ["eci2ecef", "ecef2eci"])

prop("C20", "Time conversions are exact for every date",
     "For every datetime from year 1 to 9998, juliandate equals the proleptic Gregorian Julian date (day number plus day fraction), time zones with equal instants give equal results, leap-second lookup is the step function of the published table and UTC to TT/UT1 conversions apply it, and sidereal time is the documented polynomial modulo one turn.",
     I, "all datetimes of years 1 to 9998 (leap seconds 1960 to 2099), all UTC offsets, all longitudes",
     "Tests check a few dates; month/leap-year/leap-second boundaries are rarely hit.",
     ["sidereal.py", "timeconv.py", "earth_orientation.py"], [("juliandate, greenwichsrt, datetime2sidereal", "sidereal.py"), ("leap seconds", "earth_orientation.py"), ("str2dt", "timeconv.py")], ["juliandate", "greenwichsrt"])

prop("C21", "Azimuth/elevation and right ascension/declination are inverse",
     "For every observer latitude and time, radec2azel and azel2radec are mutually inverse (modulo 360 degrees in azimuth and right ascension), outputs lie in their documented ranges, and the object's direction agrees with the rotation of the celestial sphere by local sidereal time.",
     I, "all azimuths, elevations, latitudes, longitudes, sidereal times, degrees and radians",
     "Tests check one star.",
     ["vallado.py", "azelradec.py"], [("azel2radec/radec2azel", "vallado.py")], ["azel2radec", "radec2azel"])

prop("C22", "Angular separation is the great-circle angle",
     "For every pair of directions, anglesep and anglesep_meeus return the angle between the two unit vectors in [0, 180] degrees, are symmetric and give zero exactly for equal directions.",
     I, "all pairs of directions, degrees and radians, scalar/array",
     "Tests check one pair.",
     ["haversine.py"], [("anglesep, anglesep_meeus, haversine", "haversine.py")], ["anglesep", "anglesep_meeus"])

prop("C23", "Ellipsoid objects are consistent, named ones are as tabulated and lookups never interfere",
     "For any semimajor and semiminor axis the derived flattening, eccentricity and third flattening satisfy their definitions; every named ellipsoid has its published axes; Ellipsoid.from_name returns equal parameters on every call regardless of what was constructed or looked up before, and unknown names fail without affecting later calls. Series coefficient caches keyed on an ellipsoid never return another ellipsoid's values.",
     ["inputs", "histories"], "all axes a>=b>0; all names; all histories of up to 4 constructions and lookups",
     "Tests check defaults and a couple of names; cross-talk needs particular histories.",
     ["ellipsoid.py", "karney.py"], [("Ellipsoid", "ellipsoid.py"), ("cached series", "karney.py")], ["Ellipsoid.from_name"])

prop("C24", "Arrays behave as element-wise scalars and inputs are never modified",
     "For every public conversion and array input, each element of the result equals the scalar result for that element, broadcast shape is preserved, and neither the arrays nor other objects passed in are modified.",
     IC, "arrays of shape (2,), (1,), (2,1)x(2,), element values symbolic and independently in any branch",
     "Tests use arrays whose elements take the same branch.",
     ["ecef.py", "enu.py", "aer.py", "los.py", "latitude.py", "vincenty.py", "haversine.py", "lox.py", "spherical.py", "eci.py", "nvector.py", "rcurve.py", "dca.py"],
     [("where-masked branches", "ecef.py"), ("trim", "enu.py")], ["all vectorised public functions"])

prop("C25", "The command line returns the same values as the library call",
     "For every API function exposed by the command line and all numeric arguments, python -m pymap3d NAME ARGS calls exactly the API function NAME with those values in their parameter positions, honours optional parameters, prints the returned values, and rejects unknown functions or malformed numbers with a non-zero exit.",
     ["inputs", "programs"], "all exposed functions, symbolic positive argument values, each optional argument present or absent",
     "Tests run a few commands.",
     ["__main__.py"], [("argument routing", "__main__.py")], ["python -m pymap3d"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

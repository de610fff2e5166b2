"""C25 ECEF and geodetic coordinates."""
BOUNDS = {"quick": "every latitude -90..90, longitude, height -10 km..40000 km (reals, superset of the doubles); longitude for |lat| <= 89.9999; WGS-84 and two other reference ellipsoids; ECEF positions: distance from the axis 0 or 1 m .. 40000 km (never raises: 0..70000 km), |z| likewise",
          "thorough": "as quick on nine reference ellipsoids, heights up to 400000 km"}
ASSUMPTIONS = ["sin, cos, sqrt, asin, acos, atan2 are correct to within 2^-52 relative, every arithmetic operation to within 2^-53 (both are part of the bounds computed)",
               "coordinates of a symbolic position are rewritten by M cos^2 + M sin^2 = M, sqrt(m^2) = |m| and atan2(M sin t, M cos t) = t (M > 0); the rounding of the operations rewritten is bounded by 16 ulp",
               "deciding solver: branch and prune over the input box with Taylor models (symx/icp.py), since no SMT theory available here decides sin, cos and atan2 over the reals"]
A, F = 6378137.0, 298.257223563
ELLIPSOIDS = [(6377397.155, 299.1528128), (6378249.145, 293.465), (6378137.0, 298.257222101), (6377563.396, 299.3249646), (6378206.4, 294.9786982), (6378388.0, 297.0), (6378245.0, 298.3), (6377276.345, 300.8017)]
TOP = 40000000.0


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for f in ("there", "lon", "form", "core", "back"):
        for top in (TOP, 10 * TOP) if big and f != "core" else (TOP,):
            out.append(dict(name=f + ("/high" if top > TOP else ""), fn="h_" + f, params=dict(top=top), cost=20, max_time=3000 if big else 600))
    for i, (a, f) in enumerate(ELLIPSOIDS[:8 if big else 2]):
        out.append(dict(name="ellipsoid/%d" % i, fn="h_ell", params=dict(a=a, f=f), cost=20, max_time=3000 if big else 600))
    return out


def sphere(S, p):
    S.icp()
    return S.ireal("lat", -90.0, 90.0), S.ireal("lon", -180.0, 180.0), S.ireal("height", -10000.0, p.get("top", TOP))


def h_there(S, p):
    """geodetic -> ECEF -> geodetic: latitude and height"""
    h = S.mod("nmeahelpers")
    lat, lon, ht = sphere(S, p)
    a, b, c = h.ecef2llh(*h.llh2ecef(lat, lon, ht))
    S.observe(a)
    S.decide("round trip", near=[(a, lat, 1e-9), (c, ht, 1e-3)])


def h_lon(S, p):
    """longitude (away from the poles, where it is not defined)"""
    h = S.mod("nmeahelpers")
    S.icp()
    lat, lon, ht = S.ireal("lat", -89.9999, 89.9999), S.ireal("lon", -179.9999999, 180.0), S.ireal("height", -10000.0, p["top"])
    a, b, c = h.ecef2llh(*h.llh2ecef(lat, lon, ht))
    S.observe(b)
    S.decide("longitude", near=[(b, lon, 1e-9)], raises=False)


def h_form(S, p):
    """llh2ecef against the definition of geodetic coordinates: the foot of the normal, plus height along it"""
    from math import sin, cos, sqrt, pi
    h = S.mod("nmeahelpers")
    lat, lon, ht = sphere(S, p)
    x, y, z = h.llh2ecef(lat, lon, ht)
    S.observe(x, y, z)
    la, lo = lat * pi / 180, lon * pi / 180
    f = 1 / F
    b = A * (1 - f)
    n = A * A / sqrt(A * A * cos(la) * cos(la) + b * b * sin(la) * sin(la))
    w = (n + ht) * cos(la)
    S.decide("distance from the axis", near=[(x * cos(lo) + y * sin(lo), w, 1e-3), (x * sin(lo) - y * cos(lo), 0.0, 1e-3)])
    S.decide("z", near=[(z, (n * (1 - f) * (1 - f) + ht) * sin(la), 1e-3)])


def h_core(S, p):
    """any ECEF position: never an exception, nominal value near the core"""
    from math import sin, cos
    S.icp()
    h = S.mod("nmeahelpers")
    w, l, z = S.ireal("w", 0.0, 70000000.0), S.ireal("lon", -3.14159265358979, 3.14159265358979), S.ireal("z", -70000000.0, 70000000.0)
    a, b, c = h.ecef2llh(w * cos(l), w * sin(l), z)
    S.observe(a, c)
    r2 = w * w + z * z
    if r2 < 90000.0 ** 2: S.decide("nominal position near the core", near=[(a, 0.0, 1e-9), (c, -1.0e7, 1e-3)])
    else: S.decide("defined", defined=[a, c])


def h_back(S, p):
    """ECEF -> geodetic -> ECEF in the plane of a meridian"""
    h = S.mod("nmeahelpers")
    S.icp()
    w, z = S.ireal("w", 1.0, p["top"]), S.ireal("z", -p["top"], p["top"])
    if w * w + z * z < 6340000.0 ** 2: return
    x1, y1, z1 = h.llh2ecef(*h.ecef2llh(w, 0.0, z))
    S.observe(x1, y1, z1)
    S.decide("round trip", near=[(x1, w, 1e-3), (y1, 0.0, 1e-3), (z1, z, 1e-3)])


def h_ell(S, p):
    """other ellipsoids"""
    h = S.mod("nmeahelpers")
    lat, lon, ht = sphere(S, p)
    a0, f0 = p["a"], p["f"]
    a, b, c = h.ecef2llh(*h.llh2ecef(lat, lon, ht, a0, f0), a0, f0)
    S.observe(a)
    S.decide("round trip", near=[(a, lat, 1e-9), (c, ht, 1e-3)])

"""C22 great-circle helpers."""
BOUNDS = {"quick": "every pair of latitudes in -90..90 and longitudes in -180..180 (reals: a superset of the doubles), default and any radius up to 10^7, coordinates as floats or whole numbers; sine, cosine, square root ... are any functions meeting their contract (range, parity, sign, values at 0 and 1, inverses, same argument same result), every arithmetic operation may be off by a rounding error of 2^-53",
          "thorough": "as quick, with longitudes -360..360 and solver limits raised"}
ASSUMPTIONS = ["the C library's functions meet the contract in symx/trig.py; what follows only from deeper identities (for instance the accuracy of haversine between two general positions) is outside the claim",
               "a counterexample is over the contract's functions: it is confirmed on the real code with the solver's coordinates and a fixed set of degenerate and extreme positions, and not reported if none of them fails"]
PI = 3.141592653589793


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for f in ("haversine", "bearing", "planar", "area"):
        for kind in ("range", "same", "swap", "meridian", "equator", "ints"):
            if (f, kind) in (("bearing", "same"), ("bearing", "swap")): continue
            for rad in (0, 1) if f != "bearing" and kind in ("range", "swap") else (0,):
                out.append(dict(name="%s/%s%s" % (f, kind, "/radius" if rad else ""), fn="h_" + kind, params=dict(f=f, rad=rad, lon=360 if big else 180), cost=20))
    return out


LATS = (-90.0, -89.99999999, -45.5, -1e-9, 0.0, 1e-9, 30.0, 53.3, 90.0)
LONS = (-180.0, -179.9999999, -90.0, -2.5, -1e-15, 0.0, 1e-15, 2.5, 90.0, 117.3, 180.0)
_lats = [(a, b) for a in LATS for b in LATS]
_lons = [(a, b) for a in LONS for b in LONS]
ANTIPODES = [(14.074889777666982, 110.66563488811556, -14.074889777666982, -69.33436511188444), (-0.716314659256625, -155.96298393464576, 0.716314659256625, 24.037016065354237),
             (34.94685058754136, 144.5279174115483, -34.94685058754136, -35.47208258845171), (-14.0, 66.0, 14.0, -114.0), (60.0, -40.0, -60.0, 140.0), (-17.0, 170.0, 17.0, -10.0)]
RADIUS = {"haversine": 6378.137, "planar": 6378137.0, "area": 6378.137}


def places(S, p, names):
    """the pairs of positions to look at: any (one symbolic pair), natively also the witnesses"""
    lon = p["lon"]
    v = []
    for n in names:
        lim = 90 if n.startswith("lat") else lon
        v.append(S.int(n, -lim, lim) if p.get("ints") else S.real(n, -lim, lim))
    yield v
    if S.native:
        if len(names) == 4:
            for w in ANTIPODES: yield [int(x) for x in w] if p.get("ints") else list(w)
        la = _lats if "lat2" in names else [(a,) for a in LATS] if "lat1" in names else [()]
        lo = _lons if "lon2" in names else [(a,) for a in LONS] if "lon1" in names else [()]
        for a in la:
            for b in lo:
                d = dict(zip([n for n in names if n.startswith("lat")], a))
                d.update(zip([n for n in names if n.startswith("lon")], b))
                yield [int(d[n]) if p.get("ints") else d[n] for n in names]


def radius(S, p):
    if not p["rad"]: return [], RADIUS.get(p["f"])
    r = S.real("radius", 0.001, 10000000)
    return [r], r


def call(S, p, *a):
    try:
        return getattr(S.mod("nmeahelpers"), p["f"])(*a)
    except (ValueError, ZeroDivisionError, OverflowError):
        S.fail("raises")


def limit(S, p, d, R):
    S.check(S.type(d) is float, "a float")
    if p["f"] == "bearing": return S.check(S.all(d >= 0, d < 360), "in [0, 360)")
    S.check(d >= 0, "never negative")
    if p["f"] == "haversine": S.check(S.le(d, R * PI, 1e-6), "at most half the circumference")


def h_range(S, p):
    S.trig()
    for a, b, c, d in places(S, p, ("lat1", "lon1", "lat2", "lon2")):
        ra, R = radius(S, p)
        limit(S, p, call(S, p, a, b, c, d, *ra), R)


def h_ints(S, p):
    S.trig()
    for a, b, c, d in places(S, dict(p, ints=1), ("lat1", "lon1", "lat2", "lon2")):
        x = call(S, p, a, b, c, d)
        if p["f"] == "bearing": S.check(S.all(x >= 0, x < 360), "in [0, 360)")
        else: S.check(x >= 0, "never negative")


def h_same(S, p):
    """coincident positions"""
    S.trig()
    for a, b in places(S, p, ("lat1", "lon1")):
        S.check(call(S, p, a, b, a, b) == 0, "zero at the same position")


def h_swap(S, p):
    """order of the positions"""
    S.trig()
    flat = p["f"] == "planar"         # planar: positions of equal latitude
    for x in places(S, p, ("lat1", "lon1", "lon2") if flat else ("lat1", "lon1", "lat2", "lon2")):
        a, b, c, d = (x[0], x[1], x[0], x[2]) if flat else x
        ra, R = radius(S, p)
        u, v = call(S, p, a, b, c, d, *ra), call(S, p, c, d, a, b, *ra)
        S.check(S.near(u, v, 1.0 if p["rad"] else R * 1e-7), "same in either order")


def h_meridian(S, p):
    """positions on one meridian"""
    S.trig()
    f = p["f"]
    for a, b, c in places(S, p, ("lat1", "lon1", "lat2")):
        d = call(S, p, *((a, b, c, b) if f != "bearing" else (0.0, b, c, b)))
        if f == "area": S.check(d == 0, "no area")
        elif f == "bearing": S.check(S.any(S.all(c >= 0, S.any(S.near(d, 0, 1e-9), S.near(d, 360, 1e-9))), S.all(c <= 0, S.near(d, 180, 1e-9))), "due north or south")
        elif f == "haversine":
            m = abs(c - a) * (6378.137 * PI / 180)
            S.check(S.near(d, m, 1e-3), "radius times difference of latitude")
        else:
            m = abs(c - a) * (6378137.0 * PI / 180)
            S.check(S.near(d, m, 1e-3), "radius times difference of latitude")


def h_equator(S, p):
    """positions on the equator"""
    S.trig()
    f = p["f"]
    for b, d in places(S, dict(p, lon=89), ("lon1", "lon2")):
        x = call(S, p, 0.0, b, 0.0, d)
        if f == "area": S.check(x == 0, "no area")
        elif f == "bearing": S.check(S.any(S.all(d >= b, S.near(x, 90, 1e-9)), S.all(d <= b, S.near(x, 270, 1e-9)), S.near(d, b, 1e-9)) if abs(b) < 90 and abs(d) < 90 else True, "due east or west")
        elif f == "haversine": S.check(S.near(x, abs(d - b) * (6378.137 * PI / 180), 1e-3) if abs(d - b) <= 180 else True, "radius times difference of longitude")
        else: S.check(S.near(x, abs(d - b) * (6378137.0 * PI / 180), 1e-3), "radius times difference of longitude")

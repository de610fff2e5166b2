"""C23 ISO 6709, hex and speed formatters."""
BOUNDS = {"quick": "latitude, longitude and altitude: each any decimal of up to 7 places (|lat| <= 90, |lon| <= 180, |alt| <= 10^6) or any whole number, with the other two of either sign; any reference system name of 0..6 characters; "
                   "hex2str: every number below 2^40 and every padding 0..20; knots2spd: every unit text of 0..5 characters (any letter case), every speed of up to 4 decimals below 10^5 (either sign)",
          "thorough": "as quick with decimals of up to 9 places, numbers below 2^64, paddings to 40, unit texts up to 7 characters"}
ASSUMPTIONS = ["values are finite doubles that are the double nearest to a decimal of the stated size (every double printed with at most 15 digits), or ints"]
FACTOR = {"MS": 0.5144447324, "FS": 1.68781084, "MPH": 1.15078, "KMPH": 1.852001}


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for which in ("lat", "lon", "alt"):
        for n in range(0, 10 if big else 8):
            out.append(dict(name="iso/%s/%d" % (which, n), fn="h_iso", params=dict(which=which, n=n), cost=20))
    for n in range(0, 7):
        out.append(dict(name="crs/%d" % n, fn="h_crs", params=dict(n=n)))
    out.append(dict(name="iso/mixed", fn="h_mixed", params=dict(), cost=20))
    for b in (8, 16, 40) + ((64,) if big else ()):
        out.append(dict(name="hex/%d" % b, fn="h_hex", params=dict(bits=b, pads=41 if big else 21), cost=30))
    for n in range(0, 8 if big else 6):
        for k in (0, 1, 4):
            out.append(dict(name="speed/%d/%d" % (n, k), fn="h_speed", params=dict(n=n, k=k), cost=5))
    out.append(dict(name="default", fn="h_default", params=dict()))
    return out


def component(S, text, value, label):
    """text: sign and plain magnitude, denoting value"""
    S.check(len(text) >= 2 and S.any(text[0] == "+", text[0] == "-"), label + ": one sign")
    neg = S.fork(text[0] == "-")
    digits, point, seen = [], None, 0
    for i in range(1, len(text)):
        if S.fork(text[i] == "."):
            S.check(point is None, label + ": one decimal point at most")
            point = seen
        else:
            S.check(text[i].isdigit(), label + ": a plain decimal number")
            digits.append(text[i])
            seen += 1
    S.check(seen > 0, label + ": digits")
    x = S.ratio(S.num(cat(digits)), 10 ** (seen - point if point is not None else 0))
    S.check(S.near(0 - x if neg else x, value, 1e-9), label + ": denotes the value")
    if neg: S.check(S.no(S.le(0, value)), label + ": minus only below zero")


def split3(S, t):
    """the three components (by their signs) and the rest"""
    cuts = []
    for i in range(len(t)):
        if S.fork(S.any(t[i] == "+", t[i] == "-")): cuts.append(i)
        elif S.fork(t[i] == "C"): break
    else:
        S.fail("CRS")
    S.check(len(cuts) == 3 and cuts[0] == 0, "three signed components")
    return t[:cuts[1]], t[cuts[1]:cuts[2]], t[cuts[2]:i], t[i:]


def h_iso(S, p):
    H = S.mod("nmeahelpers")
    n, w = p["n"], p["which"]
    lim = {"lat": 90, "lon": 180, "alt": 1000000}[w]
    x = S.int("x", -lim, lim) if n == 0 else S.decimal("x", -lim * 10 ** n, lim * 10 ** n, n)
    v = {"lat": S.pick("a", [12.5, -51.25]), "lon": S.pick("b", [-2.125, 103.5]), "alt": S.pick("c", [35, -4.75])}
    v[w] = x
    t = H.llh2iso6709(v["lat"], v["lon"], v["alt"])
    a, b, c, r = split3(S, t)
    for nm, y in (("lat", a), ("lon", b), ("alt", c)): component(S, y, v[nm], nm)
    S.check(r == "CRSWGS_84/", "reference system")
    S.observe(t)


def h_mixed(S, p):
    """all three at once"""
    H = S.mod("nmeahelpers")
    v = [S.decimal("lat", -900, 900, 1), S.decimal("lon", -1800, 1800, 1), S.int("alt", -500, 9000)]
    t = H.llh2iso6709(*v)
    for nm, y, x in zip(("lat", "lon", "alt"), split3(S, t), v): component(S, y, x, nm)
    S.observe(t)


def h_crs(S, p):
    H = S.mod("nmeahelpers")
    crs = S.str("crs", p["n"], PRINT)
    t = H.llh2iso6709(27.5916, 86.564, 8850, crs)
    S.check(t == "+27.5916+86.564+8850CRS" + crs + "/", "reference system as given")
    S.check(H.llh2iso6709(lat=27.5916, lon=86.564, alt=8850, crs=crs) == t, "keyword arguments")
    S.observe(t)


def h_hex(S, p):
    H = S.mod("nmeahelpers")
    x = S.bits("x", p["bits"])
    pad = S.length("pad", 0, p["pads"] - 1)
    t = H.hex2str(x, pad)
    S.check(len(t) >= max(pad, 1), "at least the width asked")
    for i in range(len(t)):
        c = S.hexval(t[i])
        S.check(S.all(c <= 15, S.no(S.any([t[i] == q for q in "abcdef"]))), "upper-case hex digits")
        S.check(c == (x >> (4 * (len(t) - 1 - i))) % 16, "denotes the number")
    S.check(x >> (4 * len(t)) == 0, "denotes the number")
    if len(t) > max(pad, 1): S.check(t[0] != "0", "no more zeros than asked")
    if pad == 0: S.check(S.eq(H.hex2str(x), t), "no padding by default")
    S.observe(t)


def h_speed(S, p):
    H = S.mod("nmeahelpers")
    kn = S.int("kn", -99999, 99999) if p["k"] == 0 else S.decimal("kn", -99999 * 10 ** p["k"], 99999 * 10 ** p["k"], p["k"])
    u = S.str("unit", p["n"], ASCII)
    hit = None
    for name in FACTOR:
        if len(name) == p["n"] and S.fork(S.all([S.any(u[i] == name[i], u[i] == name[i].lower()) for i in range(p["n"])])):
            hit = name
            break
    try:
        v = H.knots2spd(kn, u)
    except KeyError:
        S.check(hit is None, "known unit accepted")
        return
    S.check(hit is not None, "unknown unit rejected")
    S.check(near_scaled(S, v, kn, FACTOR[hit]), "scaled by the constant of the unit")
    S.observe(v)


def near_scaled(S, v, kn, f):
    """|v - kn*f| tiny, f a constant: v / f == kn up to rounding"""
    return S.all(S.le(v, kn * f, 1e-9), S.le(kn * f, v, 1e-9))


def h_default(S, p):
    H = S.mod("nmeahelpers")
    kn = S.decimal("kn", 0, 99999, 2)
    S.check(S.near(H.knots2spd(kn), H.knots2spd(kn, "MS"), 0), "metres per second by default")
    for bad in ("", "KNOTS", "M/S", "MS ", "KMPHH"):
        try:
            H.knots2spd(kn, bad)
        except KeyError:
            continue
        S.fail("unknown unit rejected")
    S.observe(kn)

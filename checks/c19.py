"""C19 leap second offsets."""
BOUNDS = {"quick": "every microsecond from year 1 to 9999 (naive or UTC), every microsecond in eleven timezones of fixed offset (-14 to +14 hours, odd minutes and seconds), every time system; datetimes built from any year / month / day / hour / minute / second fields",
          "thorough": "as quick with forty timezone offsets"}
ASSUMPTIONS = ["the published table is pinned in the check: 27 insertions from 1972-07-01 to 2017-01-01 (IERS Bulletin C)", "datetimes are those Python can represent; fold is ignored"]
import datetime
OFFS = (0, 3600, -3600, 19800, 20700, 50400, -50400, -43200, 45900, 1, -86399, 86399)


def tasks(tier, pkg):
    offs = OFFS if tier != "thorough" else sorted(set(OFFS) | set(range(-50400, 50401, 3600)))
    out = []
    for g in "GECJI":
        out.append(dict(name="naive/%s" % g, fn="h_leap", params=dict(g=g, off=None), cost=10))
        out.append(dict(name="fields/%s" % g, fn="h_fields", params=dict(g=g), cost=10))
        for o in offs:
            out.append(dict(name="tz/%s/%d" % (g, o), fn="h_leap", params=dict(g=g, off=o), cost=10))
    out.append(dict(name="default", fn="h_default", params=dict()))
    return out


def h_leap(S, p):
    H = S.mod("nmeahelpers")
    lo = days_from_civil(1, 1, 3) * 86400
    hi = days_from_civil(9999, 12, 29) * 86400
    sec = S.int("sec", lo, hi)
    us = S.int("us", 0, 999999)
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=sec, microseconds=us)
    if p["off"] is not None:
        d = d.replace(tzinfo=datetime.timezone.utc)
        if p["off"]: d = d.astimezone(datetime.timezone(datetime.timedelta(seconds=p["off"])))
    v = H.leapsecond(d, p["g"])
    S.check(S.type(v) is int, "whole number")
    S.check(v == leaps(S, sec, p["g"]), "leap seconds inserted since the reference epoch")
    S.observe(v)


def h_fields(S, p):
    """from the calendar fields"""
    H = S.mod("nmeahelpers")
    y, m, dd = S.int("y", 1, 9999), S.int("m", 1, 12), S.int("d", 1, 31)
    S.assume(valid_date(S, y, m, dd))
    h, mi, s, us = S.int("h", 0, 23), S.int("mi", 0, 59), S.int("s", 0, 59), S.int("us", 0, 999999)
    d = datetime.datetime(y, m, dd, h, mi, s, us, tzinfo=S.pick("tz", [None, datetime.timezone.utc]))
    v = H.leapsecond(d, p["g"])
    # compare dates field-wise: the insertions are all at 00:00:00 of the first of January or July
    ref = (2006, 1, 1) if p["g"] == "C" else (1980, 1, 6)
    x = 0 - sum(1 for q in LEAPDAYS if q <= ref)
    for q in LEAPDAYS: x = x + S.ite(S.any(y > q[0], S.all(y == q[0], m >= q[1])), 1, 0)
    S.check(v == S.ite(y < 1972, 0, x), "leap seconds inserted since the reference epoch")
    S.observe(v)


def h_default(S, p):
    """GPS is the default system; GPS, Galileo, QZSS, NavIC agree, BeiDou differs by 14 s"""
    H = S.mod("nmeahelpers")
    sec = S.int("sec", START72, days_from_civil(2100, 1, 1) * 86400)
    d = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=sec)
    a = [H.leapsecond(d)] + [H.leapsecond(d, g) for g in "GEJI"]
    for x in a: S.check(x == a[0], "same offset")
    S.check(H.leapsecond(d, "C") == a[0] - 14, "BeiDou is 14 s less")
    S.observe(a[0])

"""C18 UTC <-> week number / time of week."""
BOUNDS = {"quick": "every microsecond from the epoch of each time system to 2199 (naive, UTC and in one other timezone per system; times of week truncated to the millisecond); modular and continuous week numbers; every week 0..20000 and time of week of any system with the table's or any explicit leapsecond offset -30..60",
          "thorough": "as quick to year 5000, ten timezones, weeks up to 200000"}
ASSUMPTIONS = ["the published leapsecond table is pinned in common.py (IERS Bulletin C)", "instants inside an inserted leapsecond are outside the claim", "the clock (only read for autoroll, C27) is a stub"]
import datetime
WEEK = 604800000


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for g in "GECJI":
        for tz in [None, 0] + ([{"G": 3600, "E": -18000, "C": 20700, "J": 50400, "I": -12600}[g]] if not big else [3600, -18000, 20700, 50400, -50400, 34200, -12600, 45900, -43200]):
            for mod in (True, False):
                out.append(dict(name="utc/%s/%s/%s" % (g, tz, mod), fn="h_utc", params=dict(g=g, off=tz, mod=mod, big=big), cost=60 if g in "GJ" else 10))
        for ls in ("none", "some"):
            for mod in (True, False):
                for roll in ((0, 1) if mod else (0,)):
                    out.append(dict(name="wno/%s/%s/%s/%d" % (g, ls, mod, roll), fn="h_wno", params=dict(g=g, ls=ls, mod=mod, roll=roll, big=big), cost=1 if ls == "some" else 70 if g in "GJ" else 8))
    out.append(dict(name="now", fn="h_now", params=dict()))
    return out


def interval(S, p, ms_of):
    """one interval of the leap second table within the claim: (offset, constraint on the UTC millisecond since the epoch of the system)"""
    g = p["g"]
    e0 = days_from_civil(*EPOCHS[g]) * 86400
    end = days_from_civil(5000 if p["big"] else 2200, 1, 1) * 86400
    ref = days_from_civil(*((2006, 1, 1) if g == "C" else (1980, 1, 6))) * 86400
    base = sum(1 for x in LEAPSEC if x <= ref)
    cuts = [e0] + [x for x in LEAPSEC if x > e0] + [end]
    i = S.pick("interval", list(range(len(cuts) - 1)))
    ls = sum(1 for x in LEAPSEC if x <= cuts[i]) - base
    ms = ms_of(ls)
    S.assume(S.all(ms >= (cuts[i] - e0) * 1000, ms < (cuts[i + 1] - e0) * 1000))
    return ls, ms


def h_utc(S, p):
    H = S.mod("nmeahelpers")
    g = p["g"]
    U = datetime.timezone.utc
    e0 = days_from_civil(*EPOCHS[g])
    w0 = S.int("week", 0, 200000 if p["big"] else 20000)          # every instant, written as weeks and rest
    t0 = S.int("rest", 0, WEEK - 1)
    k, ms = interval(S, p, lambda ls: w0 * WEEK + t0 - ls * 1000)
    naive = datetime.datetime(1970, 1, 1) + datetime.timedelta(days=e0) + datetime.timedelta(milliseconds=ms)
    sub = S.int("sub", 0, 999)         # the rest below a millisecond is dropped
    utc = naive.replace(tzinfo=U)
    d = naive if p["off"] is None else utc if p["off"] == 0 else utc.astimezone(datetime.timezone(datetime.timedelta(seconds=p["off"])))
    d = d + datetime.timedelta(microseconds=sub)
    mod = p["mod"]
    wno, tow, ls = H.utc2wnotow(d, g, mod)
    S.check(S.all(S.type(wno) is int, S.type(tow) is int, S.type(ls) is int), "whole numbers")
    S.check(S.all(0 <= tow, tow < WEEK), "time of week in range")
    S.check(ls == k, "leapsecond offset in force")
    S.check(tow == t0, "time of week")
    S.check(wno == (w0 % ROLL[g] if mod else w0), "week number")
    # and back, with the offset from the table or as returned
    if mod: S.assume(w0 < ROLL[g])
    how = S.pick("ls", ["table", "given"])
    b = H.wnotow2utc(wno, tow, gnss=g, modwno=mod) if how == "table" else H.wnotow2utc(wno, tow, ls=ls, gnss=g, modwno=mod)
    S.check(b == utc, "the same instant")
    S.check(b.tzinfo is not None and b.utcoffset() == datetime.timedelta(0), "in UTC")
    S.observe(wno, tow, ls)


def h_wno(S, p):
    """from week number and time of week"""
    H = S.mod("nmeahelpers")
    g = p["g"]
    e0 = days_from_civil(*EPOCHS[g])
    wno = S.int("wno", 0, 200000 if p["big"] else 20000)
    tow = S.int("tow", 0, WEEK - 1)
    w = wno % ROLL[g] if p["mod"] else wno
    base = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(days=e0)
    if p["ls"] == "some":
        ls = S.int("ls", -30, 60)
        b = H.wnotow2utc(wno, tow, ls=ls, gnss=g, modwno=p["mod"])
        S.check(b == base + datetime.timedelta(milliseconds=w * WEEK + tow - ls * 1000), "epoch + weeks + time of week - leapseconds")
    else:
        if p["mod"] and p["roll"] == 0: S.assume(wno < ROLL[g])
        b = H.wnotow2utc(wno, tow, gnss=g, modwno=p["mod"])
        ls, t = interval(S, p, lambda ls: w * WEEK + tow - ls * 1000)         # outside an inserted leapsecond
        S.check(b == base + datetime.timedelta(milliseconds=t), "epoch + weeks + time of week - leapseconds")
        r = H.utc2wnotow(b, g, p["mod"])
        S.check(S.all(r[0] == w, r[1] == tow, r[2] == ls), "week number and time of week again")
    S.observe(b)


def h_now(S, p):
    """without argument: the current time"""
    H = S.mod("nmeahelpers")
    ms = S.int("ms", 0, 10 ** 12)
    d = datetime.datetime(2010, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(milliseconds=ms)
    S.now(d)
    a, b = H.utc2wnotow(), H.utc2wnotow(d, "G", True)
    S.check(S.all(a[0] == b[0], a[1] == b[1], a[2] == b[2]), "same as the current time")
    S.observe(a[0], a[1])

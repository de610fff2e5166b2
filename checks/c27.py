"""C27 autoroll resolves modular week numbers."""
BOUNDS = {"quick": "every current time (to the millisecond) from 2000 to 2200, every week number below the rollover (and any number up to 20000), every time of week (and beyond one week), every time system, leapsecond offset from the table or any explicit offset -30..60; the earlier and later candidates are symbolic rollover indices",
          "thorough": "as quick, current time 1980-01-06 to 3000 to the microsecond"}
ASSUMPTIONS = ["the clock is a stub returning the chosen instant", "candidates inside an inserted leapsecond are outside the claim (their place in the sequence is ambiguous by that second)"]
import datetime
WEEK = 604800000


def tasks(tier, pkg):
    out = []
    big = tier == "thorough"
    for g in "GECJI":
        for ls in ("none", "some"):
            y0 = 2000
            step = {"G": 100, "J": 100, "I": 100, "E": 200, "C": 200}[g]
            for y in range(y0, 2200, step):
                out.append(dict(name="roll/%s/%s/%d" % (g, ls, y), fn="h_roll", params=dict(g=g, ls=ls, lo=y, hi=y + step, big=big), cost=20))
            if big:
                out.append(dict(name="roll/%s/%s/early" % (g, ls), fn="h_roll", params=dict(g=g, ls=ls, lo=1981, hi=2000, big=big), cost=20))
                out.append(dict(name="roll/%s/%s/late" % (g, ls), fn="h_roll", params=dict(g=g, ls=ls, lo=2200, hi=2500, big=big), cost=20))
    return out


def cand(S, p, w, tow, ls):
    """UTC ms since the epoch of GNSS week w, time of week tow: (instant, whether it is outside an inserted leapsecond)"""
    t = w * WEEK + tow
    if ls is not None: return t - ls * 1000, True
    g = p["g"]
    e0 = days_from_civil(*EPOCHS[g]) * 86400
    ref = days_from_civil(*((2006, 1, 1) if g == "C" else (1980, 1, 6))) * 86400
    base = sum(1 for x in LEAPSEC if x <= ref)
    k0 = sum(1 for x in LEAPSEC if x <= e0) - base
    u, ok, k = t - k0 * 1000, [], k0
    for x in LEAPSEC:
        if x > e0:
            c = (x - e0) * 1000         # UTC instant; in the system's time it is c + offset
            u = u - S.ite(t >= c + (k + 1) * 1000, 1000, 0)
            ok.append(S.any(t < c + k * 1000, t >= c + (k + 1) * 1000))
            k += 1
    return u, S.all(ok)


def h_roll(S, p):
    H = S.mod("nmeahelpers")
    g = p["g"]
    R = ROLL[g]
    e0 = days_from_civil(*EPOCHS[g]) * 86400
    wno = S.int("wno", 0, 20000)
    tow = S.int("tow", 0, WEEK * 2 - 1)
    lo = max(0, (days_from_civil(p["lo"], 1, 1) * 86400 - e0) * 1000)
    hi = (days_from_civil(p["hi"], 1, 1) * 86400 - e0) * 1000
    ms = S.int("now", lo, hi - 1)
    us = S.int("us", 0, 999) if p["big"] else 0
    base = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=e0)
    now = base + datetime.timedelta(milliseconds=ms)
    if p["big"]: now = now + datetime.timedelta(microseconds=us)
    S.now(now)
    ls = S.int("ls", -30, 60) if p["ls"] == "some" else None
    w, t = wno % R, tow % WEEK
    b = H.wnotow2utc(wno, tow, ls=ls, gnss=g, autoroll=True)
    # the number of rollovers is the solver's choice
    n = S.int("rolls", 0, 60)
    u, ok = cand(S, p, w + n * R, t, ls)
    v, ok2 = cand(S, p, w + (n + 1) * R, t, ls)
    S.assume(S.all(ok, ok2))
    isnow = S.all(u <= ms, ms < v)
    first = S.all(n == 0, u > ms)
    S.assume(S.any(isnow, first))
    S.check(b == base + datetime.timedelta(milliseconds=u), "the latest date not after now (the first if none)")
    S.observe(b)

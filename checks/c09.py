"""C09 NMEA position text."""
BOUNDS = {"quick": "encoding: every decimal of 0..7 places (hp: 0..9) and every real number within +-90 / +-180, as latitude and longitude, normal and high precision, every integer; decoding: every text of 2..5 degree digits, 2 minute digits and 0..8 decimals, with and without sign, any text of 0..8 printable characters, well-formed texts with any one character replaced by any Unicode character; val2str / str2val of LA and LN agree with the helpers",
          "thorough": "as quick with decimals of up to 10 places, decoding with up to 10 decimals, any text of up to 10 printable characters"}
ASSUMPTIONS = ["minutes of 60..99 in a text to decode: only that the result is '' or a number", "doubles are modelled as real numbers with the rounding error of every operation bounded (round to nearest), exact on integers"]


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for att in ("LA", "LN"):
        for hp in (0, 1):
            for pl in range(0, 11 if big else 8 + 2 * hp):
                out.append(dict(name="enc/%s/hp%d/dec%d" % (att, hp, pl), fn="h_enc", params=dict(att=att, hp=hp, places=pl), cost=5))
            for b in (20, 46, 52):
                out.append(dict(name="enc/%s/hp%d/bin%d" % (att, hp, b), fn="h_enc", params=dict(att=att, hp=hp, places=None, bits=b), cost=20))
            out.append(dict(name="enc/%s/hp%d/int" % (att, hp), fn="h_enc", params=dict(att=att, hp=hp, places=-1), cost=5))
    for nd in (2, 3, 4, 5):
        for n in range(0, 11 if big else 9):
            for sg in ("", "+", "-"):
                out.append(dict(name="dec/%d/%d/%s" % (nd, n, sg or "u"), fn="h_dec", params=dict(nd=nd, n=n, sign=sg)))
    for n in range(0, 11 if big else 9):
        out.append(dict(name="any/%d" % n, fn="h_any", params=dict(n=n), cost=n))
    for i in range(8):
        out.append(dict(name="wide/%d" % i, fn="h_wide", params=dict(i=i)))
    return out


def h_enc(S, p):
    H, M = S.mod("nmeahelpers"), S.mod("nmeamessage").NMEAMessage
    att, hp, pl = p["att"], p["hp"], p["places"]
    lim = 90 if att == "LA" else 180
    if pl is None: v = S.dyadic("v", -lim, lim, p["bits"])
    elif pl < 0: v = S.int("v", -lim, lim)
    else: v = S.decimal("v", -lim * 10 ** pl, lim * 10 ** pl, pl)
    t = H.ddd2dmm(v, att, bool(hp))
    nd, nf = (2 if att == "LA" else 3), (7 if hp else 5)
    S.check(len(t) == nd + 3 + nf, "layout (d)ddmm.mmmmm")
    deg, mi, fr = t[:nd], t[nd:nd + 2], t[nd + 3:]
    S.check(S.all(S.eq(t[nd + 2], "."), (deg + mi + fr).isdigit()), "layout (d)ddmm.mmmmm")
    mins = S.num(mi)
    S.check(mins < 60, "minutes below 60")
    x = S.ratio(S.num(deg) * 60 * 10 ** nf + S.num(mi + fr), 60 * 10 ** nf)
    tol = 0.5 * 10.0 ** -nf / 60 + 1e-13
    S.check(S.any(S.all(v >= 0, S.near(x, v, tol)), S.all(v <= 0, S.near(0 - x, v, tol))), "text denotes the absolute position to half a unit of the last minute digit")
    S.check(S.eq(M.val2str(v, att, bool(hp)), t), "val2str agrees")
    back = H.dmm2ddd(t)
    S.check(S.type(back) is float, "decodes")
    S.check(S.near(back, x, 0.51e-10), "decodes to the text's position")
    S.check(S.any(S.all(v >= 0, S.near(back, v, tol + 0.51e-10)), S.all(v <= 0, S.near(0 - back, v, tol + 0.51e-10))), "decodes to the position")
    S.observe(t)


def h_dec(S, p):
    H, M = S.mod("nmeahelpers"), S.mod("nmeamessage").NMEAMessage
    nd, n = p["nd"], p["n"]
    a, mi, b = S.digits("d", nd), S.digits("m", 2), S.digits("f", n)
    t = cat([p["sign"], a, mi, ".", b])
    v = H.dmm2ddd(t)
    x = S.ratio(S.num(a) * 60 * 10 ** n + S.num(mi + b), 60 * 10 ** n)
    if S.type(v) is str:
        S.check(S.all(S.eq(v, ""), S.any(S.num(mi) >= 60, nd > 3, n == 0, p["sign"] != "")), "well-formed text decodes")
        return
    S.check(S.type(v) is float, "number")
    S.check(S.any(S.num(mi) >= 60, S.near(v, x, 0.51e-10)), "degrees plus minutes / 60")
    S.check(S.eq(M.str2val(t, "LA"), v), "str2val agrees")
    S.observe(v)


def form(S, t, loose):
    """t has the form ddmm.m / dddmm.m (loose: optional sign, at least 4 characters before the point, any number of decimals)"""
    n = len(t)
    dig = [S.any(*[S.eq(c, d) for d in "0123456789"]) for c in t]
    dot = [S.eq(c, ".") for c in t]
    alts = [False]
    for q in range(n):
        if not loose:
            if q in (4, 5) and q < n - 1: alts.append(S.all(dig[:q], dot[q], dig[q + 1:]))
        else:
            if q >= 4: alts.append(S.all(dig[:q], dot[q], dig[q + 1:]))
            if q >= 4: alts.append(S.all(S.any(S.eq(t[0], "+"), S.eq(t[0], "-")), dig[1:q], dot[q], dig[q + 1:]))
    return S.any(alts)


def verdict(S, t, v):
    if S.type(v) is str:
        S.check(S.eq(v, ""), "'' if not a position")
        ok = form(S, t, False)
        lowmin = S.any([False] + [S.all(S.eq(t[q], "."), S.any(*[S.eq(t[q - 2], d) for d in "012345"])) for q in (4, 5) if q < len(t) - 1])
        S.check(S.no(S.all(ok, lowmin)), "well-formed text decodes")
    else:
        S.check(S.type(v) is float, "number")
        S.check(form(S, t, True), "anything else gives ''")
    S.observe(v)


def h_any(S, p):
    t = S.str("t", p["n"], PRINT)
    verdict(S, t, S.mod("nmeahelpers").dmm2ddd(t))


def h_wide(S, p):
    c = S.str("c", 1, wide=True)
    b = "1234.567"
    t = b[:p["i"]] + c + b[p["i"] + 1:]
    v = S.mod("nmeahelpers").dmm2ddd(t)
    S.assume(S.no(S.any(*[S.eq(c, x) for x in "+-"])))
    verdict(S, t, v)

"""C10 degree/minute/second display strings."""
BOUNDS = {"quick": "latlon2dms, latlon2dmm (and deg2dms, deg2dmm): every decimal of 1, 2 and 7 places, every multiple of 2^-52 (all doubles of magnitude 1 and more) and every integer within +-90 / +-180, and dms2deg of the result; dms2deg: d / d m / d m s strings of 1..3 degree, 1..2 minute and 1..2 second digits, each with 0..3 decimals, delimiters any printable Latin-1 character (also the display symbols), with and without blanks and hemisphere letter; any string of 0..5 printable characters; well-formed strings with any one character replaced by any Unicode character; roundings to 3, 7 and 10 places",
          "thorough": "as quick with decimals of 0..10 places and multiples of 2^-46, parts with up to 6 decimals, any string of up to 6 printable characters"}
ASSUMPTIONS = ["delimiters are not digits, '.', blanks or the letters N S E W", "strings in which a letter N S E W takes the place of a delimiter before the end, and strings ending in a line feed, are outside the claim", "doubles are modelled as real numbers with the rounding error of every operation bounded (round to nearest), exact on integers"]
DELIM = charset((33, 126), (161, 255)) & ~charset("0123456789.NSEW")


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for fn in ("dms", "dmm"):
        for att in ("LA", "LN"):
            for sg in (0, 1):
                for pl in [-1] + list(range(0, 11) if big else (1, 2, 7)):
                    out.append(dict(name="fmt/%s/%s/%s%s" % (fn, att, "int" if pl < 0 else "dec%d" % pl, "-+"[sg]), fn="h_fmt", params=dict(f=fn, att=att, places=pl, bits=0, sg=sg), cost=20 + 10 * pl * (fn == "dms")))
                for b in (46, 52) if big else (52,):
                    out.append(dict(name="fmt/%s/%s/bin%d%s" % (fn, att, b, "-+"[sg]), fn="h_fmt", params=dict(f=fn, att=att, places=None, bits=b, sg=sg), cost=80))
    for parts in (1, 2, 3):
        for nd in (1, 2, 3):
            for dp in ((0, 1, 3, 6) if big else (0, 1, 3)):
                for hemi in ("", "any"):
                    for sp in (0, 1):
                        out.append(dict(name="parse/%d/%d/%d/%s%d" % (parts, nd, dp, hemi, sp), fn="h_parse", params=dict(parts=parts, nd=nd, dp=dp, hemi=hemi, sp=sp)))
    for n in range(0, 7 if big else 6):
        out.append(dict(name="any/%d" % n, fn="h_any", params=dict(n=n), cost=3 ** n))
    for tpl in ("2.5\u00b0N", "51\u00b030.5\u2032W", "1\u00b02\u20323.5\u2033S"):
        for i in range(len(tpl)):
            out.append(dict(name="wide/%s/%d" % (tpl[:1] + tpl[-1:], i), fn="h_wide", params=dict(tpl=tpl, i=i)))
    for form in ("1\u00b02\u20323\u20334\u2033N", "1\u00b02\u20323\u20334\u2033", "x", "\u00b0", "N", "12", "1\u00b0NN", "\u00b0\u2032\u2033N", "1\u00b02\u20323\u2033X", "1.2.3\u00b0N", ".\u00b0N", "1\u00b0.\u2032N", "-1\u00b0N", "1\u00b0N2"):
        out.append(dict(name="bad/%s" % "".join("%02x" % ord(c) for c in form), fn="h_bad", params=dict(t=form)))
    return out


def h_fmt(S, p):
    H = S.mod("nmeahelpers")
    att, pl = p["att"], p["places"]
    hi = 90 if att == "LA" else 180
    lo, hi = (0, hi) if p["sg"] else (-hi, 0)
    if pl is None: v = S.dyadic("v", lo, hi, p["bits"])
    elif pl < 0: v = S.int("v", lo, hi)
    else: v = S.decimal("v", lo * 10 ** pl, hi * 10 ** pl, pl)
    f = H.latlon2dms if p["f"] == "dms" else H.latlon2dmm
    a, b = f(v, 1.25) if att == "LA" else f(1.25, v)
    t, other = (a, b) if att == "LA" else (b, a)
    S.check(S.eq((H.deg2dms if p["f"] == "dms" else H.deg2dmm)(v, att), t), "both entry points agree")
    S.check(S.eq(other, {"LA": ("1\u00b015\u20320.0\u2033E" if p["f"] == "dms" else "1\u00b015.0\u2032E"), "LN": ("1\u00b015\u20320.0\u2033N" if p["f"] == "dms" else "1\u00b015.0\u2032N")}[att]), "the other coordinate is independent")
    hemi = ("S", "N") if att == "LA" else ("W", "E")
    neg = v < 0
    S.check(S.any(S.all(neg, S.eq(t[-1:], hemi[0])), S.all(S.no(neg), S.eq(t[-1:], hemi[1]))), "hemisphere of the sign")
    i = t.find("\u00b0")
    j = t.find("\u2032")
    S.check(i > 0 and j > i + 1, "symbols in order")
    d, m = t[:i], t[i + 1:j]
    S.check(d.isdigit(), "degrees are a plain number")
    nd = 5 if p["f"] == "dms" else 7
    if p["f"] == "dms":
        k = t.find("\u2033")
        S.check(k > j + 1 and k == len(t) - 2, "symbols in order")
        s = t[j + 1:k]
        S.check(S.all(m.isdigit(), S.num(m) < 60), "minutes plain and below 60")
    else:
        S.check(j == len(t) - 2, "symbols in order")
        s = m
    q = s.find(".")
    S.check(q > 0 and q < len(s) - 1 and len(s) - q - 1 <= nd, "plain decimal number")
    ip, fp = s[:q], s[q + 1:]
    S.check(S.all(ip.isdigit(), fp.isdigit(), S.num(ip) < 60), "plain number below 60")
    n = len(fp)
    if p["f"] == "dms":
        x = S.ratio((S.num(d) * 3600 + S.num(m) * 60) * 10 ** n + S.num(ip + fp), 3600 * 10 ** n)
        tol = 0.5e-5 / 3600 + 1e-13
    else:
        x = S.ratio(S.num(d) * 60 * 10 ** n + S.num(ip + fp), 60 * 10 ** n)
        tol = 0.5e-7 / 60 + 1e-13
    S.check(S.any(S.all(v >= 0, S.near(x, v, tol)), S.all(v <= 0, S.near(0 - x, v, tol))), "denotes the position")
    back = H.dms2deg(t)
    S.check(S.near(back, v, tol + 0.51e-7), "dms2deg returns the position")
    S.observe(t)


def h_parse(S, p):
    H = S.mod("nmeahelpers")
    rnd = S.pick("rnd", [None, 3, 10])
    t, x = "", None
    for i in range(p["parts"]):
        last = i == p["parts"] - 1
        a = S.digits("a%d" % i, p["nd"] if i == 0 else min(2, p["nd"]))
        f = S.digits("f%d" % i, p["dp"] if last or p["dp"] == 1 else 0)
        dl = S.str("d%d" % i, 1, DELIM)
        t = t + a + ("." + f if len(f) else "") + (" " if p["sp"] and i == 0 else "") + dl + (" " if p["sp"] else "")
        y = S.ratio(S.num(a + f), 10 ** len(f) * 60 ** i)
        x = y if x is None else x + y
    h = S.str("h", 1, charset("NSEW")) if p["hemi"] else ""
    t = t + h
    neg = S.any(S.eq(h, "S"), S.eq(h, "W"))
    v = H.dms2deg(t) if rnd is None else H.dms2deg(t, rnd)
    tol = 0.5 * 10.0 ** -(7 if rnd is None else rnd) + 1e-12
    S.check(S.type(v) is float, "number")
    S.check(S.any(S.all(neg, S.near(0 - v, x, tol)), S.all(S.no(neg), S.near(v, x, tol))), "degrees + minutes/60 + seconds/3600 with the hemisphere's sign")
    S.observe(v)


def classify(S, t):
    """(value, sign) if t is well formed, None if it is not, 'gray' outside the claim; forks on the class of every character"""
    cls = []
    for c in t:
        if S.fork(S.any(*[S.eq(c, x) for x in "0123456789"])): cls.append("d")
        elif S.fork(S.eq(c, ".")): cls.append(".")
        elif S.fork(S.eq(c, " ")): cls.append(" ")
        elif S.fork(S.any(*[S.eq(c, x) for x in "NSEW"])): cls.append("h")
        elif S.fork(S.any(*[S.eq(c, x) for x in "\n"])): cls.append("n")
        else: cls.append("x")
    if "n" in cls: return "gray"
    s = [(k, c) for k, c in zip(cls, t) if k != " "]
    hemi = None
    if s and s[-1][0] == "h":
        hemi = s[-1][1]
        body = s[:-1]
        if not body or body[-1][0] != "x":
            # the letter is the last part's delimiter, or there is no number before it
            return "gray" if body and body[-1][0] in "d." else None if not any(k == "h" for k, c in body) else "gray"
    else: body = s
    if any(k == "h" for k, c in body): return "gray"
    parts, cur_ = [], []
    for k, c in body:
        if k == "x":
            parts.append(cur_)
            cur_ = []
        else: cur_.append((k, c))
    if cur_ or not 1 <= len(parts) <= 3: return None
    x = None
    for i, part in enumerate(parts):
        ks = "".join(k for k, c in part)
        if ks.count(".") > 1 or "d" not in ks: return None
        if not ks[0] == "d" or not ks[-1] == "d": return "gray"           # .5 or 5.
        a = cat([c for k, c in part if k == "d"])
        n = len(ks) - 1 - ks.index(".") if "." in ks else 0
        y = S.ratio(S.num(a), 10 ** n * 60 ** i)
        x = y if x is None else x + y
    return x, S.any(S.eq(hemi, "S"), S.eq(hemi, "W")) if hemi is not None else False


def judge(S, t):
    want = classify(S, t)
    try:
        v = S.mod("nmeahelpers").dms2deg(t)
    except ValueError:
        S.check(want is None or want == "gray", "well-formed string is accepted")
        S.observe("ValueError")
        return
    if want == "gray":
        S.check(True, "outside the claim")
        return
    S.check(want is not None, "anything else raises ValueError")
    x, neg = want
    S.check(S.any(S.all(neg, S.near(0 - v, x, 0.51e-7)), S.all(S.no(neg), S.near(v, x, 0.51e-7))), "degrees + minutes/60 + seconds/3600 with the hemisphere's sign")
    S.observe(v)


def h_any(S, p):
    judge(S, S.str("t", p["n"], PRINT))


def h_wide(S, p):
    i, tpl = p["i"], p["tpl"]
    c = S.str("c", 1, wide=True)
    judge(S, tpl[:i] + c + tpl[i + 1:])


def h_bad(S, p):
    try:
        S.mod("nmeahelpers").dms2deg(p["t"])
    except ValueError:
        S.check(True, "raises ValueError")
        return
    S.fail("raises ValueError")

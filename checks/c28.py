"""C28 str() of a message and msgdesc()."""
BOUNDS = {"quick": "every defined message in every mode, parsed (texts of 2 symbolic characters, integers and decimals of up to 2 digits symbolic or empty, one date, time and position each; groups of 2 items; truncated by 0..2 or with extra fields) and generated from keywords; unknown identities with 0..12 fields of 0..3 symbolic characters; user-defined messages; long and special fields: texts of 300 symbolic characters, integers of 12 and decimals of 17 digits, a decimal of 0.0000001..0.0000099, inf; msgdesc of every identity listed and of any text of 0..12 characters",
          "thorough": "as quick with groups of 1, 3 and 10 items, texts of up to 4 characters, msgdesc of texts of up to 16 characters"}
ASSUMPTIONS = ["field characters are printable ASCII without , * $"]
import datetime
NOW = datetime.datetime(2024, 5, 6, 7, 8, 9, 120000, tzinfo=datetime.timezone.utc)
NOKW = {("GETP", "ASHR"), ("GETP", "QTMSN_ALT"), ("GETP", "QTMCFGGEOFENCE_DIS")}


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for t, k, d in all_defs():
        for reps in ((1, 3, 10) if big and has_group(d) else (2,)):
            out.append(dict(name="parsed/%s/%s/%d" % (t, k, reps), fn="h_parsed", params=dict(tab=t, key=k, reps=reps, w=4 if big else 2), cost=len(d)))
        if (t, k) not in NOKW:
            out.append(dict(name="gen/%s/%s" % (t, k), fn="h_gen", params=dict(tab=t, key=k), cost=len(d)))
    for n in (0, 1, 2, 3, 12):
        for w in (0, 1, 3): out.append(dict(name="unknown/%d/%d" % (n, w), fn="h_unknown", params=dict(n=n, w=w), cost=10))
    out.append(dict(name="user", fn="h_user", params=dict(), cost=10))
    for v in range(4): out.append(dict(name="wide/%d" % v, fn="h_wide", params=dict(v=v), cost=10))
    out.append(dict(name="desc/listed", fn="h_listed", params=dict(), cost=10))
    for n in range(0, 17 if big else 13): out.append(dict(name="desc/%d" % n, fn="h_desc", params=dict(n=n), cost=20))
    return out


def shows(S, m, names, ident_, nominal=False):
    s = str(m)
    S.check(S.type(s) is str, "str() is text")
    want = "<NMEA(" + ident_ + (", NOMINAL" if nominal else "")
    for n in names:
        want = want + ", " + n + "=" + str(getattr(m, n))
    S.check(S.eq(s, want + ")>"), "identity and every attribute with its value, in payload order")
    S.check(S.eq("%s" % m, s), "formatted the same way")
    S.observe(s)


def h_parsed(S, p):
    R = S.mod("nmeareader").NMEAReader
    t, k = p["tab"], p["key"]
    d = TABS[t][k]
    tk, mid, first = ident(t, k)
    flat = expand(d, p["reps"])
    fs = []
    blank = S.pick("numbers", ["some", "none"])
    for i, (n, att, raw) in enumerate(flat):
        if i == 0 and first is not None: x = first
        elif i == 0 and VKEYS.get(k) == "STMDRSENMSG": x = firstfield(k)
        elif raw in count_names(d): x = "%d" % p["reps"]
        elif i == 0 and (variant(k) or k == "ASHR"): x = "OK" if k == "QTMSN" else fixedfield(att, i).text
        elif att in ("LAD", "LND"): x = "NE"[att == "LND"]
        elif att in TEXT: x = S.str("f%d" % i, p["w"], FIELD & ~charset("[]"))
        elif blank == "none" and att in ("IN", "DE", "LA", "LN", "TM", "DT"): x = ""
        elif att == "IN": x = S.digits("f%d" % i, 1 + i % 2)
        else: x = fixedfield(att, i).text
        fs.append(x)
    n = len(fs)
    delta = S.length("delta", -2, 1)
    if delta < 0: fs = fs[:max(1, n + delta)]
    elif delta and not (variant(k) or has_none(d)): fs = fs + ["x"]
    if variant(k) and delta: fs = fs[:n] + fs[len(fs):] if len(fs) == n else fs
    if variant(k) and len(fs) != n: S.assume(False)
    if t == "GETP" and VKEYS.get(k, k).startswith("QTM") and len(fs) in (1, 2): S.assume(S.no(S.any(S.eq(fs[0], "OK"), S.eq(fs[0], "ERROR"))))
    m = R.parse(sentence(S, tk, mid, fs), msgmode=MODE[t], validate=0)
    names = [x[0] for x in flat][:len(fs)]
    if has_none(d):
        g = [v for nm, v in d if isinstance(v, list)][0][1]
        before = [nm for nm, v in d].index([nm for nm, v in d if isinstance(v, list)][0])
        names = [x[0] for x in expand(d, max(0, (len(fs) - before) // len(g)))][:len(fs)]
    shows(S, m, names, tk + mid + (first if first is not None and VKEYS.get(k) is None else ""))


def h_gen(S, p):
    M = S.mod("nmeamessage").NMEAMessage
    S.now(NOW)
    t, k = p["tab"], p["key"]
    d = TABS[t][k]
    tk, mid, first = ident(t, k)
    kw = {}
    for i, (n, att, raw) in enumerate(expand(d, 2)):
        if raw in count_names(d): kw[n] = 2
        elif att in ("LA", "LN"): kw[n] = -33.25 if i % 2 else 12.5
        elif att in TEXT and att not in ("LAD", "LND"): kw[n] = S.str(n, 1, FIELD)
        elif att == "IN": kw[n] = S.int(n, 10, 99)
        elif att == "DE": kw[n] = 1.5 + i
        elif att in ("TM", "DT", "DM", "DTL"): kw[n] = NOW.time() if att == "TM" else NOW.date()
    if VKEYS.get(k) == "STMDRSENMSG": kw["msgtype"] = int(firstfield(k))
    elif first is not None: kw["msgId"] = first
    if k == "QTMSN": kw["status"] = "OK"
    if k == "QTMCFGGEOFENCE_DIS": kw["geofencemode"] = 0
    if k == "QTMCFGPPS_DIS": kw["enable"] = 0
    m = M(tk, mid, MODE[t], **kw)
    shows(S, m, [x[0] for x in expand(d, 2)], tk + mid + (first if first is not None and VKEYS.get(k) is None else ""))


def h_unknown(S, p):
    M = S.mod("nmeamessage").NMEAMessage
    R = S.mod("nmeareader").NMEAReader
    mid = "Q" + S.str("mid", 1, charset("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"))
    tk = S.str("tk", 2, charset("GNQA"))
    fs = [S.str("f%d" % i, p["w"], FIELD) for i in range(p["n"])]
    mode = S.pick("mode", [0, 1, 2])
    m = M(tk, mid, mode, payload=list(fs), validate=0) if S.pick("how", [0, 1]) else R.parse(sentence(S, tk, mid, fs), msgmode=mode, validate=0)
    shows(S, m, ["field_%02d" % (i + 1) for i in range(p["n"])], tk + mid, True)


def h_user(S, p):
    R = S.mod("nmeareader").NMEAReader
    M = S.mod("nmeamessage").NMEAMessage
    ud = {"ZZ1": {"n": "IN", "txt": "ST", "g": ("None", {"x": "ST"})}}
    a, b, c = S.digits("a", 2), S.str("b", 2, FIELD), S.str("c", 1, FIELD)
    shows(S, R.parse(sentence(S, "GN", "ZZ1", [a, b, c, "d"]), validate=0, userdefined=ud), ["n", "txt", "x_01", "x_02"], "GNZZ1")
    shows(S, M("GN", "ZZ1", 0, userdefined=ud, n=4, txt=b, x_01=c), ["n", "txt", "x_01"], "GNZZ1")


def h_wide(S, p):
    R = S.mod("nmeareader").NMEAReader
    v = p["v"]
    if v == 0: shows(S, R.parse(sentence(S, "GN", "TXT", ["01", "01", "02", S.str("x", 300, FIELD)]), validate=0), ["numMsg", "msgNum", "msgType", "text"], "GNTXT")
    elif v == 1: shows(S, R.parse(sentence(S, "GN", "TXT", ["123456" + S.digits("x", 6), "", "0", ""]), validate=0), ["numMsg", "msgNum", "msgType", "text"], "GNTXT")
    elif v == 2: shows(S, R.parse(sentence(S, "GN", "HDT", ["0.000000" + S.digits("x", 2), "T"]), validate=0), ["headingT", "headingTu"], "GNHDT")
    else:
        x = S.pick("x", ["12345678901234567", "0.12345678901234567", "12345.678901234", "inf", "1e30", "1e-30", "-0.0", "123456.5e3"])
        shows(S, R.parse(sentence(S, "GN", "HDT", [x, "T"]), validate=0), ["headingT", "headingTu"], "GNHDT")


def listed(S):
    t = S.mod("nmeatypes_core")
    return t.NMEA_MSGIDS, t.NMEA_MSGIDS_PROP


def h_listed(S, p):
    H = S.mod("nmeahelpers")
    a, b = listed(S)
    for k in list(a) + list(b):
        v = H.msgdesc(k)
        S.check(v == (a[k] if k in a else b[k]), "description of a listed identity")


def h_desc(S, p):
    H = S.mod("nmeahelpers")
    x = S.str("x", p["n"], PRINT)
    a, b = listed(S)
    S.assume(S.no(S.any([S.eq(x, k) for k in list(a) + list(b) if len(k) == p["n"]])) if p["n"] else True)
    S.check(S.eq(H.msgdesc(x), "Unknown msgID " + x), "any other identity is unknown")
    S.observe(H.msgdesc(x))

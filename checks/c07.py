"""C07 generated messages serialize to valid sentences that parse back equal."""
BOUNDS = {"quick": "every defined message of every mode (groups of 2 items): all attributes supplied (texts: any 2 printable characters, numbers, positions, dates and times: distinct constants) in three keyword orders; each single attribute supplied alone with a symbolic value (texts of 0, 1 and 4 characters, integers -999..99999, decimals of 0..3 places up to 9999.999, positions to 7 decimals of a degree in the first definition per pattern) and all others nominal; no attribute supplied; "
                   "per type, in five messages: integers up to +-10^9, decimals up to 6 places below 10^6 and of 12 places up to 100, any position of up to 7 decimals in normal and high precision, any time to the microsecond, any date 1969..2068 (from year 1000 for ddmmyyyy), any text of 0..6 characters",
          "thorough": "as quick with groups of 1, 3 and 10 items, decimals up to 9 places below 10^8, texts of up to 12 characters, symbolic positions / dates / times in every definition"}
ASSUMPTIONS = ["text characters are printable ASCII without , * $ ; keywords of one definition variant are supplied together (C21)", "the clock is a stub returning 2024-05-06 07:08:09.12 UTC"]
import datetime
NOW = datetime.datetime(2024, 5, 6, 7, 8, 9, 120000, tzinfo=datetime.timezone.utc)
NOBR = FIELD & ~charset("[]")
REP = {"IN": [("GET", "GGA", "numSV"), ("GET", "GSV", "numMsg"), ("GETP", "UBX00", "numSV"), ("GET", "ZDA", "ltzh"), ("GET", "GBS", "svid")],
       "DE": [("GET", "GGA", "alt"), ("GET", "RMC", "spd"), ("GET", "VTG", "cogt"), ("GETP", "UBX00", "altRef"), ("GET", "XDR", None)],
       "ST": [("GET", "TXT", "text"), ("GET", "GNS", "posMode"), ("GET", "DTM", "datum")],
       "CH": [("GET", "RMC", "status"), ("GET", "GLL", "posMode")],
       "LA": [("GET", "GGA", "lat"), ("GET", "RMC", "lat"), ("GETP", "UBX00", "lat"), ("GET", "WPL", None)],
       "LN": [("GET", "GGA", "lon"), ("GET", "RMC", "lon"), ("GETP", "UBX00", "lon"), ("GET", "WPL", None)],
       "TM": [("GET", "GGA", "time"), ("GET", "RMC", "time"), ("GET", "ZDA", "time")],
       "DT": [("GET", "RMC", "date"), ("GETP", "UBX04", None)], "DM": [], "DTL": [], "HX": [], "QS": []}


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    seen = {}
    for t, k, d in all_defs():
        if (t, k) in NOKW: continue
        for n, att, raw in expand(d, 1):
            if n != "msgId": seen.setdefault(att, []).append((t, k, n))
        for reps in ((1, 2, 3, 10) if big and has_group(d) else (2,)):
            out.append(dict(name="full/%s/%s%s" % (t, k, "/%d" % reps if reps != 2 else ""), fn="h_full", params=dict(tab=t, key=k, reps=reps), cost=len(d)))
        out.append(dict(name="one/%s/%s" % (t, k), fn="h_one", params=dict(tab=t, key=k, big=big), cost=3 * len(d)))
    for att, occ in seen.items():
        pick = [occ[i] for i in sorted({0, len(occ) // 3, len(occ) // 2, 2 * len(occ) // 3, len(occ) - 1})]
        for t, k, n in pick:
            for hp in ((0, 1) if att in ("LA", "LN") else (0,)):
                out.append(dict(name="type/%s/%s/%s/%s%s" % (att, t, k, n, "/hp" if hp else ""), fn="h_type", params=dict(att=att, tab=t, key=k, attr=n, hp=hp, big=big), cost=40))
    return out


CONST = {"TM": datetime.time(1, 2, 3, 450000), "DT": datetime.date(2021, 3, 4), "DM": datetime.date(2022, 5, 6), "DTL": datetime.date(1987, 12, 31)}


def const(i, att):
    if att == "IN": return 7 + i
    if att == "DE": return (3 + 2 * i) / 4
    if att == "LA": return (-12.5 if i % 2 else 33.25) - i % 7
    if att == "LN": return (112.5 if i % 2 else -133.25) + i % 5
    return CONST[att]


def nominal(att, mode):
    if att in ("CH", "ST", "LA", "LN"): return ""
    if att == "LAD": return "N"
    if att == "LND": return "E"
    if att == "HX": return "0"
    if att == "DE": return 0.0
    if att == "IN": return 0
    if att == "QS": return ("OK", "W", "R")[mode]
    return NOW.time() if att == "TM" else NOW.date()


def back(S, att, given, got, hp=False):
    """got (parsed back) is what was given"""
    if given == "" and S.type(given) is str:
        if att == "HX" or att in TEXT: return S.eq(got, "")
        return S.eq(got, "")
    if att in TEXT:
        return S.eq(got, given)
    if att == "IN":
        return S.all(S.type(got) is int, got == given)
    if att == "DE":
        return S.all(S.type(got) is float, S.near(got, given, 0))
    if att in ("LA", "LN"):
        return S.all(S.type(got) is float, S.near(got, given, (5e-8 if hp else 5e-6) / 60 + 2e-10))
    if att == "TM":
        return S.all(S.type(got) is datetime.time, got.hour == given.hour, got.minute == given.minute, got.second == given.second, got.microsecond == given.microsecond // 10000 * 10000)
    return S.all(S.type(got) is datetime.date, got.year == given.year, got.month == given.month, got.day == given.day)


# not selectable by keywords: PASHR attitude (no msgId), QTMSN_ALT (same keywords as QTMSN), disabled geofence response
NOKW = {("GETP", "ASHR"), ("GETP", "QTMSN_ALT"), ("GETP", "QTMCFGGEOFENCE_DIS")}


def base(t, k, d):
    """keywords that a message of this definition cannot do without"""
    kw = {}
    f = firstfield(k)
    if VKEYS.get(k) == "STMDRSENMSG": kw["msgtype"] = int(f)
    elif f is not None: kw["msgId"] = f
    if k == "QTMSN": kw["status"] = "OK"
    if k == "QTMCFGGEOFENCE_DIS": kw["geofencemode"] = 0
    if k == "QTMCFGPPS_DIS": kw["enable"] = 0
    return kw


def selects(S, t, k, kw):
    """the value that selects another variant is not used"""
    if t == "SETP" and k in ("QTMCFGGEOFENCE", "QTMCFGPPS"):
        n = "geofencemode" if k == "QTMCFGGEOFENCE" else "enable"
        if n in kw: S.assume(kw[n] != 0)


def check_back(S, p, flat, kw, m, hp=False, nom=True):
    t, k = p["tab"], p["key"]
    R = S.mod("nmeareader").NMEAReader
    mode = MODE[t]
    names = [n for n, a, r in flat]
    S.check([x for x, v in attrs(m)] == names, "attributes of the generated message")
    m2 = R.parse(m.serialize(), msgmode=mode, validate=1)
    S.check(m2 is not None, "sentence accepted")
    a2 = attrs(m2)
    S.check([x for x, v in a2] == names, "attributes parsed back")
    S.check(S.eq(m2.serialize(), m.serialize()), "same sentence")
    S.check(m2.identity == m.identity and m2.talker == m.talker and m2.msgmode == mode, "identity")
    for (n, att, raw), (x, v) in zip(flat, a2):
        if att in ("LAD", "LND"): continue          # C08
        if n in kw: S.check(back(S, att, kw[n], v, hp), "%s attribute comes back" % att)
        elif nom: S.check(back(S, att, nominal(att, mode), v, hp), "nominal %s value" % att)
    S.observe(m.serialize())


def okack(S, k, t, flat, kw):
    """a one-field OK / two-field ERROR sentence is an acknowledgement (C21)"""
    if VKEYS.get(k, k)[:3] == "QTM" and t == "GETP" and len(flat) in (1, 2) and flat[0][0] in kw:
        x = kw[flat[0][0]]
        S.assume(S.no(S.any(x == "OK", x == "ERROR")) if S.type(x) is str else True)


def h_full(S, p):
    t, k = p["tab"], p["key"]
    d = TABS[t][k]
    M = S.mod("nmeamessage").NMEAMessage
    tk, mid, first = ident(t, k)
    flat = expand(d, p["reps"])
    counts = count_names(d)
    kw = base(t, k, d)
    for i, (n, att, raw) in enumerate(flat):
        if raw in counts: kw[n] = p["reps"]
        elif n in kw: pass
        elif att in ("LAD", "LND"): continue
        elif att in TEXT: kw[n] = S.str(n, 2, NOBR)
        else: kw[n] = const(i, att)
    okack(S, k, t, flat, kw)
    its = list(kw.items())
    h = len(its) // 2
    ms = [M(tk, mid, MODE[t], **dict(x)) for x in (its, its[::-1], its[h:] + its[:h])]
    S.check(S.all(S.eq(ms[0].serialize(), ms[1].serialize()), S.eq(ms[0].serialize(), ms[2].serialize())), "keyword order does not matter")
    check_back(S, p, flat, kw, ms[0])


def symval(S, nm, att, big):
    if att == "IN": return S.int(nm, -999, 99999)
    if att == "DE":
        n = S.pick(nm + ".places", [0, 1, 3])
        return S.decimal(nm, -9999, 9999 * 10 ** n, n)
    if att in TEXT: return S.str(nm, S.pick(nm + ".len", [0, 1, 4]), NOBR)
    if not big: return const(1, att)
    return typeval(S, nm, att, False)


def typeval(S, nm, att, big):
    if att == "IN": return S.int(nm, -10 ** 9, 10 ** 9)
    if att == "DE":
        n = S.length(nm + ".places", 0, 10 if big else 7)
        if n == (10 if big else 7): return S.decimal(nm, -10 ** 14, 10 ** 14, 12)
        return S.decimal(nm, -10 ** (n + (8 if big else 6)) + 1, 10 ** (n + (8 if big else 6)) - 1, n)
    if att in TEXT: return S.str(nm, S.length(nm + ".len", 0, 12 if big else 6), NOBR)
    if att in ("LA", "LN"):
        a = 90 if att == "LA" else 180
        n = S.pick(nm + ".places", [7, 3, 0])
        return S.decimal(nm, -a * 10 ** n, a * 10 ** n, n)
    if att == "TM":
        return datetime.time(S.int(nm + ".h", 0, 23), S.int(nm + ".m", 0, 59), S.int(nm + ".s", 0, 59), S.int(nm + ".us", 0, 999999))
    y = S.int(nm + ".y", 1969 if att != "DTL" else 1000, 2068 if att != "DTL" else 9999)
    m, d = S.int(nm + ".m", 1, 12), S.int(nm + ".d", 1, 31)
    S.assume(valid_date(S, y, m, d))
    return datetime.date(y, m, d)


def h_one(S, p):
    """one attribute supplied (or none), the others nominal"""
    t, k = p["tab"], p["key"]
    d = TABS[t][k]
    M = S.mod("nmeamessage").NMEAMessage
    S.now(NOW)
    tk, mid, first = ident(t, k)
    kw = base(t, k, d)
    if variant(k):               # all attributes are needed to select it: the picked one symbolic
        for i, (n, att, raw) in enumerate(expand(d, 1)):
            if n not in kw and att not in ("LAD", "LND"): kw[n] = "a%d" % (i % 10) if att in TEXT else const(i, att)
    flat = expand(d, 1)
    counts = count_names(d)
    free = [i for i, (n, att, raw) in enumerate(flat) if n not in base(t, k, d) and raw not in counts and att not in ("LAD", "LND")]
    j = S.pick("field", [-1] + free)
    isgrp = j >= 0 and flat[j][0] != flat[j][2]
    if not isgrp or has_none(d):
        if counts: flat = expand(d, 0)
        if has_none(d): flat = expand(d, 1 if isgrp else 0)
    else:
        for c in counts: kw[c] = 1
    if j >= 0:
        n, att = expand(d, 1)[j][:2]
        kw[n] = symval(S, "v", att, p["big"])
    okack(S, k, t, flat, kw)
    selects(S, t, k, kw)
    m = M(tk, mid, MODE[t], **kw)
    check_back(S, p, flat, kw, m)


def h_type(S, p):
    t, k = p["tab"], p["key"]
    d = TABS[t][k]
    M = S.mod("nmeamessage").NMEAMessage
    S.now(NOW)
    tk, mid, first = ident(t, k)
    kw = base(t, k, d)
    flat = expand(d, 1)
    for i, (n, att, raw) in enumerate(flat):
        if raw in count_names(d): kw[n] = 1
        elif n not in kw and variant(k) and att not in ("LAD", "LND"): kw[n] = "a%d" % (i % 10) if att in TEXT else const(i, att)
    if p["attr"] in count_names(d):
        S.check(True, "repeat count (C05)")
        return
    v = kw[p["attr"]] = typeval(S, "v", p["att"], p["big"])
    okack(S, k, t, flat, kw)
    selects(S, t, k, kw)
    m = M(tk, mid, MODE[t], hpnmeamode=bool(p["hp"]), **kw)
    check_back(S, p, flat, kw, m, p["hp"], nom=False)

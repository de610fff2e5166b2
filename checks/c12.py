"""C12 messages are immutable."""
BOUNDS = {"quick": "every defined message, parsed (fields constant) and generated (nominal, groups of 2), unknown identities (0..3 fields), user-defined messages (flat and grouped), high precision, validate 0..3, modes 0..2, a parsed message with symbolic fields (GGA, GSV, PUBX00, RMC): every attribute in the instance, every class attribute and any name of 1..9 printable characters, set (None, an integer, any 2-character text, its own value) and deleted, in sequence (internal attributes first, then the others; set then delete, delete then set)",
          "thorough": "as quick with names of up to 16 characters, on every defined message"}
ASSUMPTIONS = ["mutation of the payload list itself and object.__setattr__ are outside the claim (an attribute is neither set nor deleted)"]
import datetime
NOW = datetime.datetime(2024, 5, 6, 7, 8, 9, 120000, tzinfo=datetime.timezone.utc)
NOKW = {("GETP", "ASHR"), ("GETP", "QTMSN_ALT"), ("GETP", "QTMCFGGEOFENCE_DIS")}
UDEF = {"XYZ": {"alpha": "ST", "num": "IN", "lat": "LA", "NS": "LAD"}, "XYG": {"numv": "IN", "group": ("numv", {"item": "DE", "txt": "ST"})}, "ABC": {"one": "CH"}}
BIG = ("GGA", "GSV", "UBX00", "RMC", "TXT")


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for t, k, d in all_defs():
        for kind in ("parsed", "generated"):
            if kind == "generated" and (t, k) in NOKW: continue
            out.append(dict(name="%s/%s/%s" % (kind, t, k), fn="h_msg", params=dict(kind=kind, tab=t, key=k)))
            if big or k in BIG:
                out.append(dict(name="name/%s/%s/%s" % (kind, t, k), fn="h_name", params=dict(kind=kind, tab=t, key=k, n=16 if big else 9), cost=10))
    for kind in ("unknown", "user", "usergen", "hp", "symbolic"):
        out.append(dict(name="other/" + kind, fn="h_msg", params=dict(kind=kind), cost=20))
        out.append(dict(name="name/" + kind, fn="h_name", params=dict(kind=kind, n=16 if big else 9), cost=20))
    return out


def make(S, p):
    R = S.mod("nmeareader").NMEAReader
    M = S.mod("nmeamessage").NMEAMessage
    S.now(NOW)
    kind = p["kind"]
    if kind == "unknown":
        fs = [S.str("f%d" % i, 2) for i in range(S.length("nf", 0, 3))]
        v = S.pick("validate", [0, 1])
        return M("GN", "ZZ9", S.pick("mode", [0, 1, 2]), payload=fs, validate=v) if S.pick("how", [0, 1]) else R.parse(sentence(S, "GN", "ZZ9", fs), validate=0)
    if kind in ("user", "usergen"):
        mid = S.pick("mid", ["XYZ", "XYG", "ABC"])
        if kind == "user":
            fs = {"XYZ": ["a", S.digits("d", 2), "5130.5", "S"], "XYG": ["2", "1.5", S.str("s", 2), "2.5", "y"], "ABC": ["q"]}[mid]
            return R.parse(sentence(S, "GN", mid, fs), validate=0, userdefined=UDEF)
        kw = {"XYZ": dict(alpha="a", num=S.int("n", 0, 99), lat=-51.5), "XYG": dict(numv=2, item_01=2.5, txt_02="a"), "ABC": dict(one="c")}[mid]
        return M("GN", mid, 0, userdefined=UDEF, **kw)
    if kind == "hp":
        return M("GN", "GLL", 0, hpnmeamode=True, validate=S.pick("validate", [0, 1, 2, 3]), lat=51.5, lon=-1.25, status=S.str("st", 1))
    if kind == "symbolic":
        t, k = S.pick("def", [("GET", "GGA"), ("GET", "GSV"), ("GETP", "UBX00"), ("GET", "RMC")])
        flat = expand(TABS[t][k], 2)
        free = [i for i, x in enumerate(flat) if x[1] in TEXT or x[1] == "IN"][1:4]
        fs = [f.text for f in build_fields(S, t, k, flat, "norm", 2, dict((i, "norm" if i in free else "empty") for i in range(1, len(flat)) if not (k == "GSV" and i < 3)))]
        tk, mid, first = ident(t, k)
        return R.parse(sentence(S, tk, mid, fs), validate=S.pick("validate", [0, 2]))
    t, k = p["tab"], p["key"]
    d = TABS[t][k]
    tk, mid, first = ident(t, k)
    if kind == "parsed":
        fs = [fixedfield(att, i).text for i, (n, att, raw) in enumerate(expand(d, 2))]
        for i, (n, att, raw) in enumerate(expand(d, 2)):
            if raw in count_names(d): fs[i] = "2"
        if first is not None: fs[0] = first
        return R.parse(sentence(S, tk, mid, fs), msgmode=MODE[t], validate=0)
    kw = {}
    if VKEYS.get(k) == "STMDRSENMSG": kw["msgtype"] = int(firstfield(k))
    elif first is not None: kw["msgId"] = first
    if k == "QTMSN": kw["status"] = "OK"
    for c in count_names(d): kw[c] = 2
    if variant(k):
        for i, (n, att, raw) in enumerate(expand(d, 1)):
            if n not in kw and att not in ("LAD", "LND"): kw[n] = "a" if att in TEXT else {"IN": 7, "DE": 1.5, "LA": 33.25, "LN": 133.25}.get(att, NOW.time() if att == "TM" else NOW.date())
    return M(tk, mid, MODE[t], **kw)


def state(S, m):
    d = dict(m.__dict__)
    if S.p["kind"] in ("symbolic", "unknown"): return d, list(m._payload), m.serialize()
    return d, list(m._payload), str(m), m.serialize(), repr(m), m.identity


def attempt(S, E, m, what, f):
    before = state(S, m)
    try:
        f()
    except E.NMEAMessageError:
        S.check(S.eq(list(state(S, m)), list(before)), "message unchanged after " + what)
        return
    except (TypeError, AttributeError, ValueError) as e:
        S.fail("%s raises NMEAMessageError" % what)
        return
    S.fail("%s raises NMEAMessageError" % what)


def h_msg(S, p):
    E = S.mod("exceptions")
    m = make(S, p)
    names = list(m.__dict__)
    priv = [n for n in names if n.startswith("_")]
    extra = ["identity", "talker", "msgID", "msgmode", "payload", "checksum", "serialize", "parse", "__class__", "__dict__", "__doc__", "new", "_new", "x"]
    for n in ["_immutable"] + priv + [n for n in names if n not in priv] + extra:
        for v in (None, 5, getattr(m, n, 1)):
            attempt(S, E, m, "setting", lambda: setattr(m, n, v))
        attempt(S, E, m, "deleting", lambda: delattr(m, n))
        attempt(S, E, m, "setting", lambda: setattr(m, n, False))
    S.observe(m.serialize())


def h_name(S, p):
    E = S.mod("exceptions")
    m = make(S, p)
    n = S.str("name", S.length("len", 1, p["n"]), PRINT)
    v = S.str("value", 2, PRINT)
    def put(): m.__setattr__(n, v)
    first = S.pick("first", [0, 1, 2])
    if first == 0: attempt(S, E, m, "deleting", lambda: delattr(m, n))
    if first == 2: attempt(S, E, m, "setting", put)
    attempt(S, E, m, "setting", lambda: setattr(m, n, v))
    attempt(S, E, m, "deleting", lambda: delattr(m, n))
    S.observe(m.serialize())

"""C29 no hidden state: the same call gives the same result, whatever happened before."""
BOUNDS = {"quick": "every defined message of every mode (text and integer fields symbolic, one character; groups of 2 items), parsed, generated and printed from a fresh start, and again after a history of other calls: the same type with other symbolic fields and 1 and 3 items, truncated, with extra fields, with a wrong checksum, with an undecodable field, in the other modes, with a user-defined dictionary of the same name, generated with and without high precision, str / repr / serialize / identity of them all, in two orders; unknown identities of two characters; every helper function on pairs of symbolic arguments; two readers (different mode, validation, policy, dictionary) and two socket wrappers used alternately on symbolic bytes",
          "thorough": "as quick with groups of 1, 2, 5 and 11 items and every order of the history rotated"}
ASSUMPTIONS = ["a fresh start is the state of the package's modules right after import (module globals, class attributes, defaults, closures, functools caches)", "the clock is a stub", "single thread"]
import copy
import datetime
NOW = datetime.datetime(2024, 5, 6, 7, 8, 9, 120000, tzinfo=datetime.timezone.utc)
NOKW = {("GETP", "ASHR"), ("GETP", "QTMSN_ALT"), ("GETP", "QTMCFGGEOFENCE_DIS")}


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for t, k, d in all_defs():
        for reps in ((1, 2, 5, 11) if big and has_group(d) else (2,)):
            out.append(dict(name="msg/%s/%s/%d" % (t, k, reps), fn="h_msg", params=dict(tab=t, key=k, reps=reps, orders=4 if big else 2), cost=len(d)))
    for kind in ("unknown", "user", "usergroup"):
        out.append(dict(name="other/" + kind, fn="h_other", params=dict(kind=kind), cost=30))
    for n in sorted(HELPERS):
        out.append(dict(name="helper/" + n, fn="h_helper", params=dict(f=n), cost=30))
    for a in range(4):
        out.append(dict(name="readers/%d" % a, fn="h_readers", params=dict(a=a), cost=30))
    for a in (1, 2):
        out.append(dict(name="sockets/%d" % a, fn="h_sockets", params=dict(n=a + 1), cost=30))
    return out


def fields(S, pre, t, k, reps):
    d = TABS[t][k]
    first = ident(t, k)[2]
    out = []
    for i, (n, att, raw) in enumerate(expand(d, reps)):
        if i == 0 and first is not None: x = first
        elif raw in count_names(d): x = "%d" % reps
        elif i == 0 and (k.startswith("QTM") or k in ("ASHR", "STMDRSENMSG") or variant(k)): x = fixedfield(att, i).text if k != "QTMSN" else "OK"
        elif att in ("CH", "ST", "HX", "QS"): x = S.str(pre + str(i), 1, ALNUM)
        elif att == "IN": x = S.digits(pre + str(i), 1)
        else: x = fixedfield(att, i).text
        out.append(x)
    if VKEYS.get(k) == "STMDRSENMSG": out[0] = firstfield(k)
    return out


def outcome(S, f):
    """what a call gives: a description that can be compared later, when the objects may have changed"""
    E = S.mod("exceptions")
    try:
        m = f()
    except (E.NMEAParseError, E.NMEATypeError, E.NMEAMessageError, E.NMEAStreamError) as e:
        return [type(e).__name__]
    return describe(m)


def describe(m):
    if m is None: return [None]
    return [m.identity, m.talker, m.msgID, m.msgmode, m.checksum, list(m.payload), [list(x) for x in attrs(m)], m.serialize(), str(m)]


def tables(S):
    out = []
    for n in ("get", "set", "poll", "get_prop", "set_prop", "poll_prop", "core"):
        m = S.mod("nmeatypes_" + n)
        out += [(n, x, v) for x, v in m.__dict__.items() if x.isupper() and isinstance(v, (dict, list, tuple, str, int, set))]
    return out


def kwargs(S, pre, t, k, reps):
    d = TABS[t][k]
    first = ident(t, k)[2]
    kw = {}
    for i, (n, att, raw) in enumerate(expand(d, reps)):
        if raw in count_names(d): kw[n] = reps
        elif att in ("LA", "LN"): kw[n] = -33.25 if i % 2 else 12.5
        elif att in TEXT and att not in ("LAD", "LND"): kw[n] = S.str(pre + str(i), 1, ALNUM)
        elif att == "IN": kw[n] = 10 + i
        elif att == "DE": kw[n] = 1.5
    if VKEYS.get(k) == "STMDRSENMSG": kw["msgtype"] = int(firstfield(k))
    elif first is not None: kw["msgId"] = first
    if k == "QTMSN": kw["status"] = "OK"
    if k == "QTMCFGGEOFENCE_DIS": kw["geofencemode"] = 0
    if k == "QTMCFGPPS_DIS": kw["enable"] = 0
    return kw


def h_msg(S, p):
    import io
    R = S.mod("nmeareader").NMEAReader
    M = S.mod("nmeamessage").NMEAMessage
    S.now(NOW)
    t, k, reps = p["tab"], p["key"], p["reps"]
    tk, mid, first = ident(t, k)
    mode = MODE[t]
    tab0 = copy.deepcopy(tables(S))
    fb = fields(S, "b", t, k, reps)
    sb = sentence(S, tk, mid, fb)
    kb = kwargs(S, "bk", t, k, reps) if (t, k) not in NOKW else None

    def run():
        r = [outcome(S, lambda: R.parse(sb, msgmode=mode, validate=0)), outcome(S, lambda: R.parse(sb, msgmode=mode, validate=2))]
        pl = list(fb)
        r.append(outcome(S, lambda: M(tk, mid, mode, payload=pl, validate=0)))
        S.check(S.eq(pl, fb), "payload passed is left alone")
        if kb is not None:
            r.append(outcome(S, lambda: M(tk, mid, mode, **kb)))
            r.append(outcome(S, lambda: M(tk, mid, mode, hpnmeamode=True, **kb)))
            r.append(outcome(S, lambda: M(tk, mid, mode, **({k2: kb[k2] for k2 in kb if k2 in ("msgId", "msgtype", "status", "geofencemode", "enable")} if not variant(k) else kb))))
        return r
    want = run()
    S.fresh()
    fa = fields(S, "a", t, k, reps + 1)
    f1 = fields(S, "c", t, k, 1)
    ud = {mid: {"alpha": "ST", "beta": "ST"}, "ZZ9": {"one": "ST", "grp": ("None", {"two": "ST"})}}
    keep = []

    def do(f):
        try: keep.append(f())
        except Exception as e:
            if type(e).__name__ not in LIBERR: raise
    ka = kwargs(S, "ak", t, k, 1) if kb is not None else None
    if ka is not None: ka.pop("beta", None)
    hist = [lambda: R.parse(sentence(S, tk, mid, fa), msgmode=mode, validate=0),
            lambda: R.parse(sentence(S, tk, mid, fa, "??"), msgmode=mode, validate=1),
            lambda: R.parse(sentence(S, tk, mid, f1 + ["x", "y"]), msgmode=mode, validate=0),
            lambda: R.parse(sentence(S, tk, mid, fa[:max(1, len(fa) // 2)]), msgmode=mode, validate=0),
            lambda: R.parse(sentence(S, tk, mid, fa[:1] + ["?" for x in fa[1:]]), msgmode=mode, validate=0),
            lambda: R.parse(sentence(S, tk, mid, fa), msgmode=(mode + 1) % 3, validate=0),
            lambda: R.parse(sentence(S, tk, mid, fa), msgmode=(mode + 2) % 3, validate=2),
            lambda: R.parse(sentence(S, tk, mid, fa), msgmode=mode, validate=0, userdefined=ud),
            lambda: R.parse(sentence(S, tk, "ZZ9", fa[:3]), msgmode=mode, validate=0, userdefined=ud),
            lambda: R.parse(sentence(S, tk, "ZZ9", fa[:2]), msgmode=mode, validate=0),
            lambda: M("QQ", mid, mode, payload=list(fa), validate=2),
            lambda: R.parse(sentence(S, tk, mid, fa[:1]), msgmode=mode, validate=0)]
    if ka is not None:
        hist += [lambda: M(tk, mid, mode, hpnmeamode=True, **ka), lambda: M(tk, mid, mode, **ka)]
    o = S.pick("order", list(range(p["orders"])))
    if o == 1: hist = hist[::-1]
    elif o > 1: hist = hist[len(hist) * (o - 1) // 3:] + hist[:len(hist) * (o - 1) // 3]
    for f in hist: do(f)
    snap = [describe(m) for m in keep]
    for m in keep:
        if m is not None: repr(m)
    got = run()
    S.check(len(got) == len(want), "same results whatever happened before")
    for a, b in zip(want, got): S.check(S.eq(a, b), "same results whatever happened before")
    S.check(S.all([S.eq(describe(m), s) for m, s in zip(keep, snap)]), "earlier messages are unchanged")
    S.check(tables(S) == tab0, "definition tables are unchanged")
    S.check(ud == {mid: {"alpha": "ST", "beta": "ST"}, "ZZ9": {"one": "ST", "grp": ("None", {"two": "ST"})}}, "user-defined dictionary is unchanged")
    S.observe([x[0] for x in got])


def h_other(S, p):
    """unknown identities and user-defined definitions"""
    R = S.mod("nmeareader").NMEAReader
    M = S.mod("nmeamessage").NMEAMessage
    kind = p["kind"]
    ud1 = {"ZZ1": {"n": "IN", "txt": "ST"}, "ZZ2": {"n": "IN", "g": ("n", {"x": "ST", "y": "ST"}), "e": "ST"}}
    ud2 = {"ZZ1": {"txt": "ST", "n": "IN"}, "ZZ2": {"n": "IN", "g": ("None", {"z": "ST"})}}
    fb = [S.digits("b0", 1), S.str("b1", 1, ALNUM), S.str("b2", 1, ALNUM), "q"]
    fa = [S.digits("a0", 1), S.digits("a1", 1), "7", S.str("a3", 1, ALNUM), "z"]
    tk = "GN"
    tab0 = copy.deepcopy(tables(S))
    if kind == "unknown":
        mb, ma = "Q" + S.str("mb", 1, ALNUM), "Q" + S.str("ma", 1, ALNUM)
    else: mb = ma = "ZZ1" if kind == "user" else "ZZ2"
    kb = dict(n=2, txt=fb[1]) if kind == "user" else dict(n=2, x_01=fb[1], y_02=fb[2])

    def run():
        return [outcome(S, lambda: R.parse(sentence(S, tk, mb, fb), validate=0, userdefined=ud1)),
                outcome(S, lambda: R.parse(sentence(S, tk, mb, fb), validate=0)),
                outcome(S, lambda: R.parse(sentence(S, tk, mb, fb), validate=2)),
                outcome(S, lambda: M(tk, mb, 0, userdefined=ud1, **kb)),
                outcome(S, lambda: M(tk, mb, 2, payload=list(fb), validate=0))]
    want = run()
    S.fresh()
    keep = []

    def do(f):
        try: keep.append(f())
        except Exception as e:
            if type(e).__name__ not in LIBERR: raise
    hist = [lambda: R.parse(sentence(S, tk, ma, fa), validate=0, userdefined=ud2), lambda: R.parse(sentence(S, tk, ma, fa), validate=0),
            lambda: R.parse(sentence(S, tk, ma, fa[:2]), validate=0, userdefined=ud1), lambda: M(tk, ma, 0, userdefined=ud2, n=4),
            lambda: M(tk, ma, 0, n=4), lambda: R.parse(sentence(S, tk, ma, []), validate=0), lambda: R.parse(sentence(S, tk, ma, fa[:1]), msgmode=1, validate=2)]
    MD, GR = S.mod("nmeahelpers").msgdesc, S.mod("nmeahelpers").groupsize
    hist += [lambda: MD(ma) and None, lambda: MD(mb) and None]
    if S.pick("order", [0, 1]): hist = hist[::-1]
    for f in hist: do(f)
    snap = [describe(m) for m in keep]
    got = run()
    S.check(tables(S) == tab0, "definition tables are unchanged")
    for a, b in zip(want, got): S.check(S.eq(a, b), "same results whatever happened before")
    S.check(S.all([S.eq(describe(m), s) for m, s in zip(keep, snap)]), "earlier messages are unchanged")
    S.observe([x[0] for x in got])


def U(S, n):
    """around the leapsecond at the end of 2016, in UTC or elsewhere"""
    tz = S.pick(n + "z", [0, 3600])
    return datetime.datetime(2016, 12, 30, tzinfo=datetime.timezone(datetime.timedelta(seconds=tz))) + datetime.timedelta(seconds=S.int(n, 0, 400000))


HELPERS = {
    "calc_checksum": lambda S, n: (S.str(n, 3),),
    "generate_checksum": lambda S, n: ("GN", S.str(n + "m", 1), [S.str(n + "a", 1), S.str(n + "b", 2)]),
    "get_parts": lambda S, n: ("$GN" + S.str(n + "m", 1, ALNUM) + "TH," + S.str(n, 1) + ",1*" + S.str(n + "k", 2, ALNUM) + "\r\n",),
    "dmm2ddd": lambda S, n: (S.digits(n, 4) + "." + S.digits(n + "f", 2),),
    "ddd2dmm": lambda S, n: (S.pick(n + "s", [-33.25, 12.5]) + S.int(n, 0, 3), S.pick(n + "t", ["LA", "LN"]), S.pick(n + "hp", [False, True])),
    "date2utc": lambda S, n: (S.digits(n, 6), S.pick(n + "t", ["DT", "DM"])),
    "time2utc": lambda S, n: (S.digits(n, 6) + "." + S.digits(n + "f", 2),),
    "time2str": lambda S, n: (datetime.time(S.int(n, 0, 23), 5, S.int(n + "s", 0, 59)),),
    "date2str": lambda S, n: (datetime.date(2020, S.int(n, 1, 12), S.int(n + "d", 1, 28)), S.pick(n + "t", ["DT", "DM", "DTL"])),
    "knots2spd": lambda S, n: (S.int(n, 0, 99), S.pick(n + "u", ["MS", "ms", "KMPH", "FS", "zz"])),
    "hex2str": lambda S, n: (S.int(n, 0, 255), S.int(n + "w", 1, 4)),
    "dms2deg": lambda S, n: (S.digits(n, 2) + "\u00b0" + S.digits(n + "m", 2) + "\u2032" + S.str(n + "h", 1, charset("NSEW")),),
    "deg2dms": lambda S, n: (S.pick(n + "s", [-3.5, 0, 12.25]) + S.int(n, 0, 3), S.pick(n + "t", ["LA", "LN"])),
    "deg2dmm": lambda S, n: (S.pick(n + "s", [-3.5, 0, 12.25]) + S.int(n, 0, 3), S.pick(n + "t", ["LA", "LN"])),
    "leapsecond": lambda S, n: (U(S, n), S.pick(n + "g", ["G", "C"])),
    "utc2wnotow": lambda S, n: (U(S, n), S.pick(n + "g", ["G", "C", "E"]), S.pick(n + "m", [True, False])),
    "wnotow2utc": lambda S, n: (S.int(n, 900, 905), S.int(n + "t", 0, 604799999), None, S.pick(n + "g", ["G", "C", "E"])),
    "msgdesc": lambda S, n: (S.str(n, 3, charset("GLAQ")),),
    "llh2iso6709": lambda S, n: (S.pick(n + "s", [-3.5, 12.25]), 2.5, S.int(n + "a", -9, 99), S.pick(n + "c", ["WGS_84", "X"])),
    "groupsize": lambda S, n: {"a": 1, "b_%s" % S.pick(n, ["01", "02", "12"]): 2},
}


D = datetime.datetime(2017, 1, 1, 0, 0, 5, tzinfo=datetime.timezone.utc)
OTHERS = [("calc_checksum", ("$GNTHS,1*",)), ("generate_checksum", ("GN", "THS", ["1", "A"])), ("get_parts", ("$GNTHS,1,A*00\r\n",)), ("get_parts", ("$PUBX,00,A*00\r\n",)), ("get_parts", ("x",)),
          ("dmm2ddd", ("1234.5",)), ("ddd2dmm", (-12.5, "LA")), ("ddd2dmm", (-12.5, "LN", True)), ("date2utc", ("010203", "DM")), ("time2utc", ("010203.5",)), ("time2str", (D.time(),)), ("date2str", (D.date(), "DTL")),
          ("knots2spd", (1.5, "KMPH")), ("hex2str", (10, 4)), ("dms2deg", ("1\u00b02\u20323\u2033S",)), ("deg2dms", (-1.5, "LA")), ("deg2dmm", (-1.5, "LA")), ("leapsecond", (D, "C")), ("leapsecond", (D, "G")),
          ("utc2wnotow", (D, "C")), ("wnotow2utc", (902, 5, None, "C")), ("wnotow2utc", (902, 5, 3, "G")), ("msgdesc", ("GGA",)), ("msgdesc", ("LLL",)), ("llh2iso6709", (1.5, 2.5, 3, "X")),
          ("llh2ecef", (1.5, 2.5, 3)), ("llh2ecef", (1.5, 2.5, 3, 6378000.0, 0.003)), ("ecef2llh", (4e6, 1e6, 4.5e6)), ("haversine", (1, 2, 3, 4)), ("planar", (1, 2, 3, 4)), ("bearing", (1, 2, 3, 4))]


def h_helper(S, p):
    f = getattr(S.mod("nmeahelpers"), p["f"])
    mk = HELPERS[p["f"]]
    a, b = mk(S, "a"), mk(S, "b")

    def run(x):
        try:
            return [f(**x)] if isinstance(x, dict) else [f(*x)]
        except (ValueError, KeyError, S.mod("exceptions").NMEAParseError, S.mod("exceptions").NMEAMessageError) as e:
            return [type(e).__name__, 0]
    want = run(b)
    S.fresh()
    tab0 = copy.deepcopy(tables(S))
    H = S.mod("nmeahelpers")
    for g, v in OTHERS:
        if g != p["f"]:
            try: getattr(H, g)(*v)
            except (ValueError, KeyError, S.mod("exceptions").NMEAParseError, S.mod("exceptions").NMEAMessageError): pass
    run(a)
    got = run(b)
    S.check(tables(S) == tab0, "definition tables are unchanged")
    S.check(S.eq(got, want), "same results whatever happened before")
    if S.type(want[0]) is str: S.check(S.type(got[0]) is str, "same results whatever happened before")
    S.observe(len(got))


def drive(S, rd, n):
    E = S.mod("exceptions")
    out = []
    for i in range(n):
        try:
            raw, m = rd.read()
        except (E.NMEAParseError, E.NMEATypeError, E.NMEAMessageError, E.NMEAStreamError) as e:
            out.append([type(e).__name__])
            continue
        out.append([raw] + (describe(m) if m is not None else [None]))
    return out


def h_readers(S, p):
    """two readers used alternately"""
    R = S.mod("nmeareader").NMEAReader
    x, y = S.str("x", 1, ALNUM), S.str("y", 1, ALNUM)
    k = S.str("k", 2, ALNUM)
    s1 = ckd(S, "GNTXT,1,1,1," + x).encode("utf-8") + ("$GNTXT,1,1,2,a*" + k + "\r\n").encode("utf-8") + b"\xb5b" + ckd(S, "GNZZ1,3," + y).encode("utf-8") + b"$G"
    s2 = ckd(S, "EIGNQ,RM" + y).encode("utf-8") + b"zz" + ckd(S, "GNZZ1,4," + x).encode("utf-8") + ckd(S, "PGRME,1,M").encode("utf-8")
    c1 = dict(msgmode=0, validate=1, quitonerror=2)
    c2 = [dict(msgmode=2, validate=0, quitonerror=0), dict(msgmode=2, validate=3, quitonerror=2, nmeaonly=True), dict(msgmode=1, validate=1, quitonerror=1, errorhandler=lambda e: None),
          dict(msgmode=2, validate=1, quitonerror=2, userdefined={"ZZ1": {"a": "ST", "b": "ST"}})][p["a"]]
    c1["userdefined"] = {"ZZ1": {"n": "IN", "txt": "ST"}}
    want1 = drive(S, R(Stub(s1), **c1), 6)
    S.fresh()
    want2 = drive(S, R(Stub(s2), **c2), 6)
    S.fresh()
    if S.pick("first", [0, 1]):
        r1, r2 = R(Stub(s1), **c1), R(Stub(s2), **c2)
    else:
        r2, r1 = R(Stub(s2), **c2), R(Stub(s1), **c1)
    g1, g2 = [], []
    for i in range(6):
        g1 += drive(S, r1, 1)
        g2 += drive(S, r2, 1)
    S.check(S.all(S.eq(g1, want1), S.eq(g2, want2)), "readers are independent")
    S.observe([x[0] for x in g1])


def h_sockets(S, p):
    """two socket wrappers used alternately"""
    W = S.mod("socketwrapper").SocketWrapper
    n = p["n"]
    d1, d2 = S.bytes("d1", n) + b"\r\nab", S.bytes("d2", n) + b"cd\r\n"
    e2 = S.pick("enc", [0, 1])
    w2d = b"%x\r\n" % len(d2) + d2 + b"\r\n0\r\n\r\n" if e2 else d2
    w1 = W(Peer(d1, lambda k: 1), bufsize=3)
    w2 = W(Peer(w2d, lambda k: min(k, 4)), encoding=e2, bufsize=5)
    g1 = g2 = b""
    for i in range(n + 4):
        g1 = g1 + w1.read(1)
        g2 = g2 + w2.read(1)
    S.check(S.all(S.eq(g1, d1), S.eq(g2, d2)), "wrappers are independent")
    S.check(w1.in_waiting() == 0 and w2.in_waiting() == 0, "nothing left over")
    w1.write(d2)
    S.check(S.eq(w1._socket.out, [d2]) and len(w2._socket.out) == 0, "written to its own socket")
    S.observe(len(g1))

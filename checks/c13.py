"""C13 VALMSGID: unknown identities rejected, or kept verbatim."""
BOUNDS = {"quick": "headers of any 2 printable characters as talker with any standard identity of the mode or none of them (1..5 characters, digits and capitals), each mode, validate 2 and 3, parse and constructor; every identity defined in any mode with every mode, validate 0..3, talkers known, unknown (symbolic) and P, sentences of 1 and 3 symbolic fields; proprietary identities (P and 1..6 digits and capitals), first-field families with first fields of 0..4 characters; unknown identities with 0..5 fields of 0..4 printable characters and 12, 99, 100 and 101 fields; modes: any integer up to +-10^9, and other types",
          "thorough": "as quick with identities up to 8 characters, up to 10 fields of up to 8 characters, payloads up to 200 fields"}
ASSUMPTIONS = ["identities of digits and capital letters (the library compares them without regard to case only in part); field characters printable without , * $", "identities of one namespace with the talker of the other (a proprietary identity after a two-letter talker) are outside the claim"]
CAPS = charset(("0", "9"), ("A", "Z"))
STD = {0: TABS["GET"], 1: TABS["SET"], 2: {k: v for k, v in TABS["POLL"].items() if k in DEFS["msgids"]}}
PRO = {0: dict(TABS["GETP"]), 1: dict(TABS["SETP"]), 2: dict(TABS["POLLP"])}
for _k, _v in TABS["POLL"].items():
    if _k not in DEFS["msgids"]: PRO[2][_k] = _v
EVERY = sorted(set(DEFS["msgids"]) | set(DEFS["prefix"]) | set(DEFS["msgids_prop"]) | {k for t in TABS.values() for k in t} | {VKEYS[k] for k in VKEYS})


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for mode in (0, 1, 2):
        for v in (2, 3):
            for how in ("parse", "new", "kw"):
                out.append(dict(name="talker/m%d/v%d/%s" % (mode, v, how), fn="h_talker", params=dict(mode=mode, v=v, how=how), cost=10))
                for n in range(1, 9 if big else 6):
                    out.append(dict(name="std/m%d/v%d/%s/%d" % (mode, v, how, n), fn="h_std", params=dict(mode=mode, v=v, how=how, n=n), cost=20 if n == 3 else 5))
                for n in range(1, 9 if big else 7):
                    out.append(dict(name="prop/m%d/v%d/%s/%d" % (mode, v, how, n), fn="h_prop", params=dict(mode=mode, v=v, how=how, n=n), cost=20 if n == 3 else 5))
        for f in DEFS["prefix"]:
            for n in range(0, 5):
                out.append(dict(name="family/m%d/%s/%d" % (mode, f, n), fn="h_family", params=dict(mode=mode, fam=f, n=n), cost=20))
    for k in EVERY:
        out.append(dict(name="every/%s" % k, fn="h_every", params=dict(key=k), cost=5))
    for nf in list(range(0, 11 if big else 6)):
        for w in (0, 1, 4) + ((8,) if big else ()):
            if nf or not w:
                out.append(dict(name="verbatim/%d/%d" % (nf, w), fn="h_verbatim", params=dict(nf=nf, w=w)))
    for nf in (12, 99, 100, 101) + ((150, 200) if big else ()):
        out.append(dict(name="verbatim/%d/1" % nf, fn="h_verbatim", params=dict(nf=nf, w=1)))
    out.append(dict(name="mode/int", fn="h_mode", params=dict(kind="int")))
    out.append(dict(name="mode/other", fn="h_mode", params=dict(kind="other")))
    return out


def attempt(S, how, talker, mid, mode, v, fields, kw=None):
    """'identity' if rejected for its identity by the right exception, 'other' if rejected for its content, else the message"""
    E = S.mod("exceptions")
    R = S.mod("nmeareader").NMEAReader
    M = S.mod("nmeamessage").NMEAMessage
    if how == "parse":
        txt = talker + mid
        for f in fields: txt = txt + "," + f
        try:
            m = R.parse(cat(["$", txt, "*", S.mod("nmeahelpers").calc_checksum(txt), "\r\n"]), msgmode=mode, validate=v)
        except E.NMEAParseError:
            return "identity"
        except E.NMEATypeError:
            return "other"
        except E.NMEAMessageError:
            return "wrong exception"
        return "none" if m is None else m
    try:
        m = M(talker, mid, mode, validate=v, **(dict(payload=list(fields)) if how == "new" else kw or {}))
    except E.NMEAMessageError:
        return "identity"
    except E.NMEATypeError:
        return "other"
    except E.NMEAParseError:
        return "wrong exception"
    return m


def verdict(S, r, ok, what):
    """r must be a rejection exactly if not ok"""
    if S.type(r) is str and r in ("none", "wrong exception"): return S.fail("%s: message or the documented exception" % what)
    rejected = S.type(r) is str and r == "identity"
    S.check(S.no(ok) if rejected else ok, "%s: %s" % (what, "rejected only if unknown" if rejected else "accepted only if known"))


def h_talker(S, p):
    mode = p["mode"]
    tk = S.str("talker", 2, FIELD)
    S.assume(S.no(S.eq(tk[0], "P")))
    mids = {0: ["GGA", "TXT", "ZDA"], 1: [], 2: ["GAQ", "GPQ"]}[mode]
    if not mids:
        return verdict(S, attempt(S, p["how"], tk, "GGA", mode, p["v"], []), False, "no standard identity in SET mode")
    mid = S.pick("mid", mids)
    ok = S.any([S.eq(tk, t) for t in TALKERS])
    r = attempt(S, p["how"], tk, mid, mode, p["v"], [])
    verdict(S, r, ok, "talker")


def h_std(S, p):
    mode, n = p["mode"], p["n"]
    tk = S.pick("talker", ["GN", "BD", "UP"])
    mid = S.str("msgid", n, CAPS)
    S.assume(S.no(S.any([S.eq(mid, x) for x in EVERY if len(x) == n and x not in DEFS["msgids"]])))
    ok = S.any([S.eq(mid, k) for k in STD[mode] if len(k) == n])
    verdict(S, attempt(S, p["how"], tk, mid, mode, p["v"], []), ok, "standard identity")


def h_prop(S, p):
    mode, n = p["mode"], p["n"]
    mid = S.str("msgid", n, CAPS)
    S.assume(S.no(S.any([S.eq(mid, x) for x in EVERY if len(x) == n])))
    verdict(S, attempt(S, p["how"], "P", mid, mode, p["v"], ["a"] if p["how"] != "kw" else []), False, "proprietary identity")


def h_family(S, p):
    mode, f, n = p["mode"], p["fam"], p["n"]
    first = S.str("first", n, CAPS)
    how = S.pick("how", ["parse", "new", "kw"])
    keys = [k[len(f):] for k in PRO[mode] if k.startswith(f) and len(k) == len(f) + n]
    if f == "ASHR" and how != "kw":           # attitude sentence: time instead of an identity (C21)
        S.assume(S.no(S.any([S.eq(first[1:2], c) for c in "0123456789"])))
    ok = S.any([S.eq(first, k.upper()) for k in keys]) if keys else False
    if n == 0: ok = f in PRO[mode] and f != "ASHR"
    if f + "" in PRO[mode] and n == 0: return S.check(True, "no first field")
    r = attempt(S, how, "P", f, mode, 3, [first], dict(msgId=first))
    verdict(S, r, ok, "first field")


def h_every(S, p):
    """every identity of the tables in every mode"""
    k = p["key"]
    mode = S.pick("mode", [0, 1, 2])
    v = S.pick("validate", [0, 1, 2, 3])
    how = S.pick("how", ["parse", "new"])
    std = k in DEFS["msgids"]
    fam = None if std else family(k)
    tk = S.pick("talker", ["GN", "any"]) if std else "P"
    if tk == "any":
        tk = S.str("talker2", 2, CAPS)
        S.assume(S.no(S.any([S.eq(tk[0], "P")] + [S.eq(tk, t) for t in TALKERS])))
        known_talker = False
    else:
        known_talker = True
    mid = fam[0] if fam else VKEYS.get(k, k)
    fs = [fam[1] if fam else S.str("f0", 1, FIELD)] + ["x", ""]
    fs = fs[:S.pick("nf", [1, 3])]
    if mid == "STMDRSENMSG": fs[0] = k[len(mid) + 1:] or "24"
    defined = mid in STD[mode] if std else k in PRO[mode] if fam else (mid in PRO[mode] or any(VKEYS.get(x) == mid for x in PRO[mode]))
    if k in DEFS["prefix"]:
        S.check(True, "family")
        return
    if k in ("QTMACK", "QTMNAK"): return S.check(True, "responses (C21)")
    if mid == "QTMCFGUART" and mode == 2 and len(fs) != 1: return S.check(True, "shape (C21)")
    r = attempt(S, how, tk, mid, mode, v, fs)
    if v & 2:
        return verdict(S, r, defined and known_talker, "table identity")
    if S.type(r) is str: return S.check(r == "other" and defined, "accepted without VALMSGID")
    if not defined:
        S.check([x for x, y in attrs(r)] == ["field_%02d" % (i + 1) for i in range(len(fs))] and S.all([S.eq(y, f) for (x, y), f in zip(attrs(r), fs)]), "fields verbatim")
    S.check(S.all(S.eq(r.talker, tk), S.eq(r.msgID, mid), r.msgmode == mode), "talker, msgID and mode")


def h_verbatim(S, p):
    tk = S.str("talker", 2, CAPS) if p["nf"] < 10 else "GN"
    std = S.fork(S.no(S.eq(tk[0], "P")))
    if not std: tk = "P"
    n = S.length("n", 1, 4)
    mid = S.str("msgid", n, CAPS)
    S.assume(S.no(S.any([S.eq(mid, x) for x in EVERY if len(x) == n])))
    fs = [S.str("f%d" % i, p["w"], FIELD) for i in range(p["nf"])]
    how = S.pick("how", ["parse", "new"])
    mode = S.pick("mode", [0, 1, 2])
    r = attempt(S, how, tk, mid, mode, S.pick("v", [0, 1]), fs)
    S.check(S.type(r) is not str, "accepted")
    S.check([x for x, y in attrs(r)] == ["field_%02d" % (i + 1) for i in range(p["nf"])], "names and order")
    S.check(S.all([S.eq(y, f) for (x, y), f in zip(attrs(r), fs)]), "fields verbatim")
    S.check(S.all(S.eq(r.talker, tk), S.eq(r.msgID, mid), S.eq(r.identity, tk + mid), r.msgmode == mode), "identity")
    S.check(S.eq(list(r.payload), fs), "payload")
    if p["nf"] < 3: S.check("NOMINAL" in str(r), "shown as NOMINAL")
    S.observe(r.serialize())


def h_mode(S, p):
    E = S.mod("exceptions")
    R = S.mod("nmeareader").NMEAReader
    M = S.mod("nmeamessage").NMEAMessage
    if p["kind"] == "int":
        mode = S.int("mode", -10 ** 9, 10 ** 9)
        S.assume(S.no(S.any(mode == 0, mode == 1, mode == 2)))
    else:
        mode = S.pick("mode", [None, "0", "GET", 1.5, -0.5, "", (0,), b"0"])
    v = S.pick("v", [0, 1, 2, 3])
    what = S.pick("what", ["parse", "new", "kw", "reader", "bad"])
    try:
        if what == "parse": R.parse("$GNGLL,,,,,,,*00\r\n", msgmode=mode, validate=v & 2)
        elif what == "new": M("GN", S.pick("id", ["GLL", "ZZZ"]), mode, validate=v, payload=["a"])
        elif what == "kw": M("P", "UBX", mode, validate=v, msgId="00")
        elif what == "bad": R.parse(S.str("msg", 3, PRINT), msgmode=mode, validate=v)
        else: R(None, msgmode=mode, validate=v)
    except E.NMEAMessageError:
        return S.check(what in ("new", "kw"), "constructor raises NMEAMessageError")
    except E.NMEAParseError:
        return S.check(what in ("parse", "reader", "bad"), "parse and reader raise NMEAParseError")
    S.fail("invalid mode is rejected")

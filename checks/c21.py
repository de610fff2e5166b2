"""C21 families and variants."""
BOUNDS = {"quick": "families: every first field of 0..5 printable characters other than lower-case letters, every mode, followed by 0..3 fields of two symbolic characters; every defined member with symbolic fields. Variants: every defined variant in every mode, any field texts its types allow (two characters), as payload and as keywords in either order, parsed back. Responses: every Quectel command in every mode, one or two fields of any 0..5 characters",
          "thorough": "as quick with first fields up to 8 characters, fields up to 4 characters"}
ASSUMPTIONS = ["first fields with lower-case letters are outside the claim, except the one defined with them (TNL GGKx)",
               "keyword sets are the complete set of a variant's attributes, with or without its status; variants which keywords cannot tell apart from another (QTMSN_ALT, GET QTMCFGGEOFENCE_DIS) are built from payloads only"]
TABMODE = {0: ("GET", "GETP"), 1: ("SET", "SETP"), 2: ("POLL", "POLLP")}
PLAIN = FIELD & ~charset(("a", "z"))


def lookup(key, mode, fam):
    """definition and its table for a family key"""
    if mode == 2 and key in TABS["POLL"]: return "POLL"
    t = TABMODE[mode][1]
    return t if key in TABS[t] else None


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for fam in PREFIX:
        for mode in (0, 1, 2):
            for n in range(0, 9 if big else 6):
                for nf in (0, 1, 3):
                    out.append(dict(name="family/%s/%d/%d/%d" % (fam, mode, n, nf), fn="h_family", params=dict(fam=fam, mode=mode, n=n, nf=nf), cost=10 * n))
    for t, k, d in all_defs():
        if firstfield(k) is not None:
            out.append(dict(name="member/%s/%s" % (t, k), fn="h_member", params=dict(tab=t, key=k, w=4 if big else 2), cost=len(d)))
        if variant(k) and d:
            out.append(dict(name="variant/%s/%s" % (t, k), fn="h_variant", params=dict(tab=t, key=k, w=4 if big else 2), cost=4 * len(d)))
            if (t, k) not in (("GETP", "QTMSN_ALT"), ("GETP", "QTMCFGGEOFENCE_DIS")):
                out.append(dict(name="keywords/%s/%s" % (t, k), fn="h_keywords", params=dict(tab=t, key=k), cost=4 * len(d)))
    for q in sorted(k for k in DEFS["msgids_prop"] if k.startswith("QTM")):
        if q in VKEYS or q in ("QTMACK", "QTMNAK"): continue
        out.append(dict(name="response/%s" % q, fn="h_response", params=dict(id=q, n=8 if big else 5), cost=8))
    for n in (1, 2, 3) if not big else (1, 2, 3, 4):
        out.append(dict(name="drsen/%d" % n, fn="h_drsen", params=dict(n=n), cost=8))
    return out


def h_family(S, p):
    """any first field"""
    R, E = S.mod("nmeareader").NMEAReader, S.mod("exceptions")
    fam, mode = p["fam"], p["mode"]
    first = S.str("first", p["n"], PLAIN)
    rest = [S.str("f%d" % i, 2, DIGITS) for i in range(p["nf"])]
    known = [k for t in ("GET", "GETP", "SET", "SETP", "POLL", "POLLP") for k in TABS.get(t, {}) if family(k) and family(k)[0] == fam and k == k.upper() and lookup(k, mode, fam)]
    hit = None
    for k in sorted(set(known)):
        if len(family(k)[1]) == p["n"] and S.fork(first == family(k)[1]):
            hit = k
            break
    plain = fam == "ASHR" and p["n"] == 0       # attitude sentence without a time
    if fam == "TNL": S.assume(S.no(S.eq(first, "GGKX")))
    if fam == "ASHR" and p["n"] >= 2 and hit is None:
        plain = S.fork(S.any([first[1] == c for c in "0123456789"]))        # attitude sentence: starts with the time
    content = "P" + fam + "," + first
    for f in rest: content = content + "," + f
    if plain and mode == 0:
        try:
            m = R.parse(ckd(S, content), msgmode=mode, validate=1)
        except E.NMEATypeError:
            return
        a = attrs(m)
        names = [n for n, att in TABS["GETP"]["ASHR"]][:1 + p["nf"]]
        S.check([n for n, v in a] == names, "attributes of the attitude sentence")
        S.check(m.identity == "P" + fam, "identity")
        return
    if hit is None:
        # unknown: nominal attributes, or refused if identities are to be validated
        m = R.parse(ckd(S, content), msgmode=mode, validate=1)
        S.check([n for n, v in attrs(m)] == ["field_%02d" % (i + 1) for i in range(1 + p["nf"])], "fields of an unknown member")
        S.check(S.all([S.eq(v, f) for (n, v), f in zip(attrs(m), [first] + rest)]), "field values of an unknown member")
        S.check(m.identity == "P" + fam, "identity of an unknown member")
        for v in (2, 3):
            try:
                R.parse(ckd(S, content), msgmode=mode, validate=v)
            except E.NMEAMessageError:
                continue
            except E.NMEAParseError:
                continue
            S.fail("unknown member refused")
    else:
        try:
            m = R.parse(ckd(S, content), msgmode=mode, validate=3)
        except E.NMEATypeError:
            return
        d = TABS[lookup(hit, mode, fam)][hit]
        if not has_group(d):
            S.check([n for n, v in attrs(m)] == [n for n, att in d][:1 + p["nf"]], "attributes of the member")
        S.check(m.identity == "P" + hit, "identity of the member")
    S.observe(m.identity, attrs(m))


def freefields(S, t, k, w, tag="f"):
    """F objects: the texts of any characters, numbers of w digits, the rest constant"""
    flat = expand(TABS[t][k], 2)
    first = firstfield(k)
    out = []
    for i, (n, att, raw) in enumerate(flat):
        if i == 0 and first is not None: out.append(F("IN", first, "int", (False, first)) if att == "IN" else F("ST", first, "text"))
        elif raw in count_names(TABS[t][k]): out.append(F("IN", "2", "int", (False, "2")))
        elif i == 0 and k == "ASHR": out.append(fixedfield(att))
        elif i == 0 and k == "QTMSN": out.append(F(att, S.str(tag + "0", w, ALPHA), "text"))
        elif att in TEXT: out.append(F(att, S.str("%s%d" % (tag, i), w, FIELD if k != "SSNSNC" else ALNUM), "text"))
        elif att == "IN":
            x = S.digits("%s%d" % (tag, i), w)
            out.append(F(att, x, "int", (False, x)))
        elif att == "DE":
            x, y = S.digits("%s%d" % (tag, i), w), S.digits("%s.%d" % (tag, i), 1)
            out.append(F(att, x + "." + y, "dec", (False, x, y)))
        else: out.append(fixedfield(att))
    return out, flat


def h_member(S, p):
    """every member by its first field"""
    R = S.mod("nmeareader").NMEAReader
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    fs, flat = freefields(S, t, k, p["w"])
    if not fs: fs = [F("ST", firstfield(k), "text")]
    content = tk + mid
    for f in fs: content = content + "," + f.text
    m = R.parse(ckd(S, content), msgmode=MODE[t], validate=3)
    S.check(m.identity == tk + mid + (first or "") or (not flat and m.identity == tk + mid), "identity")
    S.check([n for n, v in attrs(m)] == [n for n, att, raw in flat], "attributes")
    for (n, v), f in zip(attrs(m), fs): expect(S, f, v, "value")
    S.observe(m.identity)


def h_variant(S, p):
    """payload shaped like one variant"""
    R = S.mod("nmeareader").NMEAReader
    M = S.mod("nmeamessage").NMEAMessage
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    fs, flat = freefields(S, t, k, p["w"])
    if t == "GETP" and len(fs) == 2: S.assume(S.no(S.eq(fs[0].text, "ERROR")))
    content = tk + mid
    for f in fs: content = content + "," + f.text
    for m in (R.parse(ckd(S, content), msgmode=MODE[t], validate=3), M(tk, mid, MODE[t], payload=[f.text for f in fs])):
        S.check([n for n, v in attrs(m)] == [n for n, att, raw in flat], "attributes of the variant")
        for (n, v), f in zip(attrs(m), fs): expect(S, f, v, "value")
        S.check(m.identity == tk + mid, "identity")
    S.observe(attrs(m))


def h_keywords(S, p):
    """keywords of one variant"""
    R = S.mod("nmeareader").NMEAReader
    M = S.mod("nmeamessage").NMEAMessage
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    flat = expand(TABS[t][k], 1)
    kw = {}
    for i, (n, att, raw) in enumerate(flat):
        if att in TEXT: kw[n] = S.str("k%d" % i, 2, ALNUM if i or k != "QTMSN" else ALPHA)
        elif att == "IN": kw[n] = S.int("k%d" % i, 10, 99)
        elif att == "DE": kw[n] = S.decimal("k%d" % i, 10, 99, 1)
        else: raise AssertionError(att)
    if VKEYS.get(k) == "STMDRSENMSG": kw["msgtype"] = S.pick("mt", [int(first or firstfield(k)), firstfield(k)])
    zero = {"QTMCFGGEOFENCE_DIS": "geofencemode", "QTMCFGPPS_DIS": "enable"}.get(k)
    if zero: kw[zero] = 0
    drop = "status" in kw and S.pick("nostatus", [False, True])
    if drop: del kw["status"]
    if S.pick("order", [0, 1]): kw = dict(reversed(list(kw.items())))
    m = M(tk, mid, MODE[t], **kw)
    names = [n for n, att, raw in flat]
    S.check([n for n, v in attrs(m)] == names, "attributes of the variant")
    S.check(len(m.payload) == len(names), "one field per attribute")
    for n, v in attrs(m):
        if n in kw and n not in ("msgtype",): S.check(S.eq(v, kw[n]), "values as given")
    n = R.parse(m.serialize(), msgmode=MODE[t], validate=3)
    S.check(n.identity == m.identity and [x for x, v in attrs(n)] == names, "same variant when parsed")
    for (x, v), (y, w) in zip(attrs(n), attrs(m)):
        if x == "msgtype": S.check(v == int(firstfield(k)), "same values when parsed")
        elif S.type(w) is float: S.check(S.near(v, w, 1e-9), "same values when parsed")
        else: S.check(S.eq(v, w), "same values when parsed")
    S.observe(m.serialize())


def h_response(S, p):
    """one field OK: acknowledged, two fields ERROR, code: not acknowledged; only in responses"""
    R, E = S.mod("nmeareader").NMEAReader, S.mod("exceptions")
    q = p["id"]
    mode = S.pick("mode", [0, 1, 2])
    nf = S.pick("nf", [1, 2])
    a = S.str("a", S.length("la", 0, p["n"]), FIELD)
    fs = [a]
    if nf == 2: fs.append(S.digits("b", 2))
    content = "P" + q
    for f in fs: content = content + "," + f
    ok = nf == 1 and S.fork(S.eq(a, "OK"))
    nak = nf == 2 and S.fork(S.eq(a, "ERROR"))
    try:
        m = R.parse(ckd(S, content), msgmode=mode, validate=1)
    except E.NMEATypeError:
        S.check(not (mode == 0 and (ok or nak)), "response accepted")
        return
    S.check(m.identity == "P" + q, "identity")
    if mode == 0 and ok:
        S.check(S.eq(attrs(m), [("status", "OK")]), "acknowledgement")
    elif mode == 0 and nak:
        S.check(S.eq([n for n, v in attrs(m)], ["status", "errcode"]) and S.eq(m.status, "ERROR"), "negative acknowledgement")
        S.check(S.all(S.type(m.errcode) is int, m.errcode == S.num(fs[1])), "error code")
    else:
        t = TABMODE[mode][1]
        keys = [k for k in TABS[t] if (k == q or VKEYS.get(k) == q)]
        fit = [k for k in keys if len(TABS[t][k]) == nf] or [k for k in keys if k == q]
        if not keys: want = ["field_01", "field_02"][:nf]
        elif q == "QTMSN" and mode == 0: want = None
        elif fit and not has_group(TABS[t][fit[0]]): want = [n for n, att in TABS[t][fit[0]]][:nf]
        else: want = None
        if want is not None: S.check([n for n, v in attrs(m)] == want, "attributes by the definition")
    S.observe(attrs(m))


def h_drsen(S, p):
    """first field of PSTMDRSENMSG: unknown types count as unknown"""
    R, E = S.mod("nmeareader").NMEAReader, S.mod("exceptions")
    first = S.str("first", p["n"], PLAIN)
    known = [k for k in TABS["GETP"] if VKEYS.get(k) == "STMDRSENMSG" and len(firstfield(k)) == p["n"]]
    hit = None
    for k in known:
        if S.fork(S.eq(first, firstfield(k))): hit = k
    try:
        m = R.parse(ckd(S, "PSTMDRSENMSG," + first + ",1,2"), msgmode=0, validate=1)
    except E.NMEATypeError:
        S.fail("accepted")
    names = ["field_%02d" % i for i in (1, 2, 3)] if hit is None else [n for n, att in TABS["GETP"][hit]][:3]
    S.check([n for n, v in attrs(m)] == names, "attributes by type")
    S.observe(attrs(m))

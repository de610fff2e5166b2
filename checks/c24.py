"""C24 user-defined definitions."""
BOUNDS = {"quick": "definitions of three fields: every assignment of the 12 types to two of them (third a text), scalar, in a fixed, counted and indeterminate group, and nested groups; field texts symbolic (normal widths, signed / short, empty, any two characters); every mode and talkers GN, P; "
                   "every identity of 1..5 letters and digits against a dictionary holding two new identities and decoys for built-in standard, proprietary and family identities; every built-in definition of every mode parsed with and without a dictionary of decoys (its own name included); generation from keywords for every pair of types and for groups, parsed back",
          "thorough": "as quick with identities of up to 7 characters and every assignment of types to three fields"}
ASSUMPTIONS = ["field characters are printable ASCII without , * $", "attribute names of user definitions are identifiers that are not the library's own (payload, msgID ...)"]
import datetime
TYPES = ["CH", "DE", "DT", "DTL", "DM", "HX", "IN", "LA", "LAD", "LN", "LND", "QS", "ST", "TM"]
NOW = datetime.datetime(2024, 5, 6, 7, 8, 9, 120000, tzinfo=datetime.timezone.utc)
DECOY = {"alpha": "ST", "beta": "ST", "gamma": "ST"}
KNOWN = sorted(set(DEFS["msgids"]) | set(DEFS["msgids_prop"]) | set(PREFIX))


def decoys():
    d = {"XYZ": {"a": "IN", "b": "ST"}, "Q1": {"q": "ST"}}
    for k in ("GGA", "RMC", "TXT", "QTMVERNO", "GRME", "UBX", "ASHR", "ASHRHPR", "UBX00", "TNL", "QTMSN", "QTMACK", "PUBX"): d[k] = dict(DECOY)
    return d


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for a in TYPES:
        for b in TYPES:
            out.append(dict(name="types/%s/%s" % (a, b), fn="h_types", params=dict(a=a, b=b, c=TYPES if big else ["ST"]), cost=10))
            out.append(dict(name="gen/%s/%s" % (a, b), fn="h_gen", params=dict(a=a, b=b), cost=10))
    for a in TYPES:
        for kind in ("fixed", "count", "none", "nested"):
            for n in (0, 1, 3):
                out.append(dict(name="group/%s/%s/%d" % (a, kind, n), fn="h_group", params=dict(a=a, kind=kind, n=n), cost=10))
    for n in range(1, 8 if big else 6):
        for tk in ("GN", "P"):
            out.append(dict(name="identity/%s/%d" % (tk, n), fn="h_identity", params=dict(n=n, tk=tk), cost=40))
    for t, k, d in all_defs():
        out.append(dict(name="builtin/%s/%s" % (t, k), fn="h_builtin", params=dict(tab=t, key=k), cost=len(d)))
    out.append(dict(name="reader", fn="h_reader", params=dict(), cost=5))
    return out


def sign(S, flds):
    """expected sign of positions, by the letter that follows: index -> True (negative) / False / None"""
    out = {}
    for i, f in enumerate(flds):
        if f.kind == "pos":
            out[i] = None
            for g in flds[i + 1:]:
                if g.att == f.att: break
                if g.att == f.att + "D":
                    out[i] = S.eq(g.text, "S" if f.att == "LA" else "W")
                    break
    return out


def verify(S, m, names, fs):
    a = attrs(m)
    S.check([n for n, v in a] == names, "attributes as defined")
    sg = sign(S, fs)
    for i, ((n, v), f) in enumerate(zip(a, fs)):
        expect(S, f, v, "value of a %s field" % f.att)
        if sg.get(i) is not None: S.check(S.all(S.implies(sg[i], S.le(v, 0)), S.implies(S.no(sg[i]), S.le(0, v))), "sign of a position")


def h_types(S, p):
    R = S.mod("nmeareader").NMEAReader
    c = S.pick("c", p["c"])
    prof = S.pick("prof", ["norm", "neg", "empty"])
    d = {"one": p["a"], "two": p["b"], "three": c}
    mode, tk, key, v = S.pick("form", [(0, "GN", "ZZZ", 1), (1, "P", "ABCDEF", 3), (2, "GN", "Q", 3)] if prof == "norm" else [(0, "P", "ZZZ", 3)])
    slow = [n for n, att in d.items() if att in ("DT", "DTL", "DM", "TM", "LA", "LN")]
    hot = S.pick("hot", slow) if len(slow) > 1 else None
    fs = [fixedfield(att) if n in slow and hot not in (None, n) and prof != "empty" else mkfield(S, n, att, prof) for n, att in d.items()]
    t = tk + key
    for f in fs: t = t + "," + f.text
    m = R.parse(ckd(S, t), msgmode=mode, validate=v, userdefined={key: d})
    verify(S, m, list(d), fs)
    S.check(m.identity == tk + key and m.msgmode == mode, "identity and mode")
    S.check(m.serialize() == ckd(S, t).encode("utf-8"), "serializes to the sentence")
    S.observe(attrs(m))


def h_group(S, p):
    R = S.mod("nmeareader").NMEAReader
    M = S.mod("nmeamessage").NMEAMessage
    a, n, kind = p["a"], p["n"], p["kind"]
    sub = {"x": a, "y_z": "ST"}
    g = {"fixed": (n, sub), "count": ("num", sub), "none": ("None", sub), "nested": ("num", {"x": a, "in": (2, {"y_z": "ST"})})}[kind]
    d = {"num": "IN", "grp": g}
    fs, names = [F("IN", "%d" % n, "int", (False, "%d" % n))], ["num"]
    for i in range(1, n + 1):
        fs.append(mkfield(S, "x%d" % i, a, "norm") if i == n else fixedfield(a))
        names.append("x_%02d" % i)
        for j in ((1, 2) if kind == "nested" else (0,)):
            fs.append(mkfield(S, "y%d.%d" % (i, j), "ST", "norm"))
            names.append("y_z_%02d" % i + ("_%02d" % j if j else ""))
    t = "GNZZZ"
    for f in fs: t = t + "," + f.text
    m = R.parse(ckd(S, t), msgmode=0, validate=1, userdefined={"ZZZ": d})
    verify(S, m, names, fs)
    S.observe(attrs(m))


def same(S, a, b):
    return S.all(S.eq(attrs(a), attrs(b)), S.eq(list(a.payload), list(b.payload)), a.identity == b.identity, S.eq(a.serialize(), b.serialize()), a.msgmode == b.msgmode)


def h_identity(S, p):
    """any identity against a dictionary"""
    R, E = S.mod("nmeareader").NMEAReader, S.mod("exceptions")
    d = decoys()
    x = S.str("id", p["n"], ALNUM & ~charset(("a", "z")))
    mode = S.pick("mode", [0, 1, 2])
    text = ckd(S, p["tk"] + x + ",7,89")
    builtin = S.fork(S.any([x == k for k in KNOWN if len(k) == p["n"]]))
    mine = None
    if not builtin:
        for k in sorted(d):
            if k not in KNOWN and len(k) == p["n"] and S.fork(x == k):
                mine = k
                break

    def run(u, v):
        try:
            return R.parse(text, msgmode=mode, validate=v, userdefined=u)
        except (E.NMEATypeError, E.NMEAMessageError, E.NMEAParseError) as e:
            return type(e).__name__
    if mine is not None:
        for v in (1, 3):
            m = run(d, v)
            S.check(not isinstance(m, str), "user-defined sentence accepted")
            S.check(S.eq(attrs(m), [(n, (7, "89")[i] if att == "IN" else ("7", "89")[i]) for i, (n, att) in enumerate(list(d[mine].items())[:2])]), "decoded by the user's definition")
            S.check(m.identity == p["tk"] + x, "identity")
    else:
        for v in (1, 3):
            a, b = run(d, v), run(None, v)
            if isinstance(a, str) or isinstance(b, str):
                S.check(isinstance(a, str) and isinstance(b, str) and a == b, "same outcome without the dictionary")
            else:
                S.check(same(S, a, b), "same message without the dictionary")
                if not builtin: S.check(S.eq(attrs(a), [("field_01", "7"), ("field_02", "89")]), "unknown identity")
                if not builtin: S.check(v == 1, "unknown identity refused when identities are validated")
        S.observe(a if isinstance(a, str) else attrs(a))


def h_builtin(S, p):
    R = S.mod("nmeareader").NMEAReader
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    flat = expand(TABS[t][k], 2)
    fs = build_fields(S, t, k, flat, "norm", 2, {})
    text = tk + mid
    for f in fs: text = text + "," + f.text
    u = decoys()
    u.update({k: dict(DECOY), mid: dict(DECOY), tk + mid: dict(DECOY), mid + (first or ""): dict(DECOY), mid.lower(): dict(DECOY)})
    a = R.parse(ckd(S, text), msgmode=MODE[t], validate=1, userdefined=u)
    b = R.parse(ckd(S, text), msgmode=MODE[t], validate=1)
    S.check(same(S, a, b), "decoded by the built-in definition")
    S.check(u == dict(decoys(), **{k: DECOY, mid: DECOY, tk + mid: DECOY, mid + (first or ""): DECOY, mid.lower(): DECOY}), "dictionary left as it was")
    S.observe(attrs(a))


KW = {"TM": datetime.time(1, 2, 3, 450000), "DT": datetime.date(2021, 3, 4), "DM": datetime.date(2022, 5, 6), "DTL": datetime.date(1987, 12, 31)}


def kwvalue(S, nm, att):
    if att == "LAD": return S.pick(nm, ["N", "S"])
    if att == "LND": return S.pick(nm, ["E", "W"])
    if att in TEXT: return S.str(nm, 2, FIELD)
    if att == "IN": return S.int(nm, -99, 999)
    if att == "DE": return S.decimal(nm, -999, 9999, 2)
    if att in ("LA", "LN"): return S.pick(nm, [51.5, -33.25])
    return KW[att]


def h_gen(S, p):
    R = S.mod("nmeareader").NMEAReader
    M = S.mod("nmeamessage").NMEAMessage
    S.now(NOW)
    kind = S.pick("kind", ["scalar", "group"])
    a, b = p["a"], p["b"]
    kw = {}
    if kind == "scalar":
        d = {"one": a, "two": b, "three": "ST"}
        flat = [("one", a), ("two", b), ("three", "ST")]
    else:
        d = {"num": "IN", "grp": ("num", {"x": a, "y_z": b}), "end": "CH"}
        flat = [("num", "IN"), ("x_01", a), ("y_z_01", b), ("x_02", a), ("y_z_02", b), ("end", "CH")]
    for n, att in flat:
        if n == "num": kw[n] = 2
        elif n.endswith("01"): kw[n] = {"IN": 5, "DE": 2.5, "LA": 33.25, "LN": -133.25}.get(att, KW.get(att, {"LAD": "N", "LND": "E"}.get(att, "ab")))
        else: kw[n] = kwvalue(S, n, att)
    for i, (n, att) in enumerate(flat):       # hemisphere letters follow the sign
        if att in ("LAD", "LND"):
            for j in range(i - 1, -1, -1):
                if flat[j][1] == att: break
                if flat[j][1] == att[:2]:
                    kw[n] = ("S" if att == "LAD" else "W") if kw[flat[j][0]] < 0 else ("N" if att == "LAD" else "E")
                    break
    mode = S.pick("mode", [0, 1, 2])
    m = M("GN", "ZZZ", mode, userdefined={"ZZZ": d}, **kw)
    S.check([n for n, v in attrs(m)] == [n for n, att in flat], "attributes as defined")
    S.check(S.all([S.eq(v, kw[n]) for n, v in attrs(m)]), "values as given")
    r = R.parse(m.serialize(), msgmode=mode, validate=3, userdefined={"ZZZ": d})
    S.check([n for n, v in attrs(r)] == [n for n, att in flat], "attributes when parsed back")
    S.check(S.eq(r.serialize(), m.serialize()) and r.identity == m.identity, "same sentence")
    for i, ((n, v), (x, att)) in enumerate(zip(attrs(r), flat)):
        g = kw[n]
        if att in ("LA", "LN"):
            signed = any(f[1] == att + "D" for f in flat[i + 1:]) and not any(f[1] == att for f in flat[i + 1:i + 2])
            S.check(S.any(S.near(v, g, 1e-7), S.all(not signed, S.near(v, abs(g), 1e-7))), "position when parsed back")
        elif att == "DE": S.check(S.all(S.type(v) is float, S.near(v, g, 0)), "decimal when parsed back")
        else: S.check(S.eq(v, g), "value when parsed back")
    S.observe(m.serialize())


def h_reader(S, p):
    """through the reader"""
    R = S.mod("nmeareader").NMEAReader
    x = S.str("x", 2, ALNUM)
    a, b = ckd(S, "GNZZZ," + x), ckd(S, "GNZDA,010203.00,," + x[:0] + ",,,")
    s = Stub((a + b + a).encode("utf-8"))
    for raw, m in R(s, userdefined={"ZZZ": {"t": "ST"}, "ZDA": {"t": "ST"}}, validate=3):
        if raw == b.encode("utf-8"): S.check(m.identity == "GNZDA" and [n for n, v in attrs(m)][0] == "time", "built in")
        else: S.check(S.eq(attrs(m), [("t", x)]), "user-defined")
    S.check(s.pos == len(s.data), "all read")

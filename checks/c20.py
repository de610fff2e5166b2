"""C20 eval(repr(msg)) re-creates the message."""
BOUNDS = {"quick": "every defined message in every mode, parsed (all text, number and hemisphere fields symbolic: normal widths, short or signed, empty; one date, time or position symbolic), truncated by 0..2 or with 0..2 extra fields; each text field of every message in turn, and fields, talker and identity of unknown messages, with any two (unknown: up to three) characters including quotes and backslashes; code points up to 255; payloads of up to 40 fields; messages generated from keywords for every definition",
          "thorough": "as quick with up to four special characters in a row, groups of 1, 3, 10 items, any code point"}
ASSUMPTIONS = ["field characters have no , * $ CR LF; evaluation happens with NMEAMessage in scope", "checksum in canonical upper case (repr does not carry it)",
               "messages generated from keywords: identity, mode, payload and bytes only (a value passed by keyword may be finer than its field text)"]
ANY = charset((32, 255)) & ~charset(",*$")


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for t, k, d in all_defs():
        for prof in ("norm", "neg", "empty"):
            for reps in ((1, 3, 10) if big and has_group(d) else (2,)):
                out.append(dict(name="known/%s/%s/%s%s" % (t, k, prof, reps if big else ""), fn="h_known", params=dict(tab=t, key=k, prof=prof, reps=reps), cost=len(d)))
        if texts_of(t, k): out.append(dict(name="text/%s/%s" % (t, k), fn="h_text", params=dict(tab=t, key=k, w=3 if big else 2), cost=len(d)))
        if (t, k) not in NOKW:
            out.append(dict(name="gen/%s/%s" % (t, k), fn="h_gen", params=dict(tab=t, key=k), cost=len(d)))
    for k in (1, 2, 3):
        for w in (1, 2, 3) + ((4,) if big else ()):
            out.append(dict(name="unknown/%d/%d" % (k, w), fn="h_unknown", params=dict(k=k, w=w, wide=0), cost=40 * w))
    out.append(dict(name="unknown/latin", fn="h_unknown", params=dict(k=2, w=2, wide=1), cost=60))
    for n in (0, 2, 10, 40): out.append(dict(name="many/%d" % n, fn="h_many", params=dict(n=n), cost=n))
    for w in (1, 2):
        out.append(dict(name="identity/%d" % w, fn="h_ident", params=dict(w=w), cost=40))
    return out


NOKW = {("GETP", "ASHR"), ("GETP", "QTMSN_ALT"), ("GETP", "QTMCFGGEOFENCE_DIS")}


def texts_of(t, k):
    """text fields which may hold anything (of many: two at each end)"""
    first = ident(t, k)[2]
    x = [i for i, (n, att, raw) in enumerate(expand(TABS[t][k], 1)) if att in TEXT and not (i == 0 and (first is not None or k in ("ASHR", "QTMSN", "QTMSN_ALT")))]
    return x if len(x) <= 4 else x[:2] + x[-2:]


def again(S, m, same_attrs=True):
    M = S.mod("nmeamessage").NMEAMessage
    r = repr(m)
    S.check(S.type(r) is str, "repr is text")
    try:
        n = S.evaluate(r, NMEAMessage=M)
    except Exception:
        return S.fail("repr evaluates")
    S.check(S.eq([n.identity, n.talker, n.msgID, n.msgmode], [m.identity, m.talker, m.msgID, m.msgmode]), "identity and mode")
    S.check(S.eq(list(n.payload), list(m.payload)), "payload")
    S.check(S.eq(n.serialize(), m.serialize()), "serialized bytes")
    if same_attrs:
        S.check(S.eq(attrs(n), attrs(m)), "attributes")
    S.observe(r)


def parse(S, t, tk, mid, fs, **kw):
    R = S.mod("nmeareader").NMEAReader
    content = tk + mid
    for f in fs: content = content + "," + f
    return R.parse(ckd(S, content), msgmode=MODE[t] if t else kw.pop("mode"), **kw)


def h_known(S, p):
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    flat = expand(TABS[t][k], p["reps"])
    tim = [i for i, x in enumerate(flat) if x[1] in ("TM", "DT", "DM", "DTL", "LA", "LN")]
    fs = []
    for i, f in enumerate(build_fields(S, t, k, flat, p["prof"], p["reps"], dict((i, p["prof"]) for i in tim[-1:]) if p["prof"] == "norm" else {} if p["prof"] == "neg" else None)):
        # plain characters: the special ones are h_text's
        fs.append(S.str("p%d" % i, 2, ALNUM) if f.kind == "text" and i > 0 and p["prof"] == "norm" else "x" if f.kind == "text" and p["prof"] == "neg" and i > 0 else f.text)
    if first is None and p["prof"] in ("norm", "neg") and k != "QTMSN_ALT" and k != "QTMSN" and flat and flat[0][1] in TEXT: fs[0] = S.str("first", 2, ALNUM) if k != "ASHR" else "02"
    d = S.length("delta", -2, 2) if p["prof"] == "norm" else 0
    if d < 0: fs = fs[:max(len(fs) + d, 1 if first is not None else 0)]
    else: fs = fs + ["x%d" % i for i in range(d)]
    try:
        m = parse(S, t, tk, mid, fs)
    except S.mod("exceptions").NMEATypeError:
        return
    again(S, m)


def h_text(S, p):
    """one text field at a time with any characters"""
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    flat = expand(TABS[t][k], 1)
    hot = S.pick("which", texts_of(t, k))
    fs = []
    for i, f in enumerate(build_fields(S, t, k, flat, "norm", 1, {})):
        fs.append(S.str("hot", p["w"], FIELD) if i == hot else first if i == 0 and first is not None else
                  "02" if k == "ASHR" and i == 0 else "1" if k == "QTMSN_ALT" and i == 0 else "OK" if k == "QTMSN" and i == 0 else fixedfield(flat[i][1], i).text if flat[i][2] not in count_names(TABS[t][k]) else "1")
    again(S, parse(S, t, tk, mid, fs))


def h_unknown(S, p):
    mask = ANY if p["wide"] else FIELD
    tk = S.str("talker", 2, charset("GNQ"))
    mi = S.str("msgid", p["k"], charset("QZ"))
    fs = ["a", S.str("f", p["w"], mask), "", "b'\"\\"]
    pos = S.pick("pos", [0, 2])
    if pos: fs = fs[::-1]
    again(S, parse(S, None, tk, mi, fs, mode=S.pick("mode", [0, 1, 2])))


def h_ident(S, p):
    """any talker and identity characters"""
    which = S.pick("which", ["talker", "msgid"])
    x = S.str("x", p["w"], FIELD & ~charset(("a", "z")))
    tk, mi = ("Q" + x[:1], "QZ" + x[1:]) if which == "talker" else ("GN", "QZ" + x)
    again(S, parse(S, None, tk, mi, ["1"], mode=0))
    M = S.mod("nmeamessage").NMEAMessage
    again(S, M(tk, mi, S.pick("mode", [0, 1, 2]), payload=["1", ""]))


def h_many(S, p):
    fs = [S.str("f%d" % i, 1, ALNUM) for i in range(p["n"])]
    again(S, parse(S, None, "GN", "QZZ", fs, mode=S.pick("mode", [0, 1, 2])))


def h_gen(S, p):
    import datetime
    M = S.mod("nmeamessage").NMEAMessage
    S.now(datetime.datetime(2024, 5, 6, 7, 8, 9, 120000, tzinfo=datetime.timezone.utc))
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    d = TABS[t][k]
    kw = {}
    for n, att, raw in expand(d, 2):
        if raw in count_names(d): kw[n] = 2
        elif att in ("LA", "LN"): kw[n] = S.pick(n, [33.25, -33.25]) if n in ("lat", "lon") else 33.25
        elif att in TEXT and att not in ("LAD", "LND"): kw[n] = S.str(n, 1, ALNUM)
        elif att == "IN": kw[n] = S.int(n, 10, 99)
        elif att == "DE": kw[n] = S.decimal(n, 10, 99, 1)
    if first is not None: kw["msgId" if VKEYS.get(k) != "STMDRSENMSG" else "msgtype"] = first
    if k == "QTMSN": kw["status"] = "OK"
    if k == "QTMCFGGEOFENCE_DIS": kw["geofencemode"] = 0
    if k == "QTMCFGPPS_DIS": kw["enable"] = 0
    again(S, M(tk, mid, MODE[t], **kw), False)

"""C06 serialize(parse(x)) == x."""
BOUNDS = {"quick": "every defined message (every mode; groups of 2 items) with all fields symbolic (normal widths, short/signed, empty), truncated by 0..2 fields or with 0..2 extra fields, and with any 2-character texts where the type allows; any content of 1..6 printable characters; unknown identities of any two-character talker and 1..5-character identity (digits and capitals) with 0..4 fields of 0..3 characters, fields with code points up to 255, payloads of up to 40 fields; "
                   "any two-character checksum field that the gate accepts (either letter case), each parsed as str and as bytes",
          "thorough": "as quick with content up to 9 characters, groups of 1..12 items, 0..5 fields truncated or added, fields of up to 12 characters, payloads of up to 120 fields"}
ASSUMPTIONS = ["field characters are printable (code points 32..255 where stated, else ASCII) without , * $", "positions, dates and times: the last of a message is symbolic (normal width), the others constant (their text is handled independently of each other)"]
CONTENT = PRINT & ~charset("*$")
KNOWN = sorted(set(DEFS["msgids"]) | set(DEFS["prefix"]) | {ident(t, k)[1] for t, k, d in all_defs(TABS)} | {k for t, k, d in all_defs(TABS)} | set(DEFS.get("msgids_prop", ())))
WIDE = charset((32, 126), (161, 255)) & ~charset(",*$")


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for t, k, d in all_defs():
        for prof in ("norm", "neg", "empty", "text"):
            for reps in ((1, 2, 3, 10, 12) if big and has_group(d) else (2,)):
                out.append(dict(name="known/%s/%s/%s%s" % (t, k, prof, reps if reps != 2 else ""), fn="h_known", params=dict(tab=t, key=k, prof=prof, reps=reps, ext=5 if big else 2), cost=len(d)))
    for n in range(1, 10 if big else 7):
        for mode in (0, 1, 2):
            out.append(dict(name="content/%d/m%d" % (n, mode), fn="h_content", params=dict(n=n, mode=mode), cost=20 * n))
    for k in range(1, 6):
        for nf in range(0, 5):
            for w in (0, 1, 3) + ((7, 12) if big else ()):
                if nf or not w:
                    out.append(dict(name="unknown/%d/%d/%d" % (k, nf, w), fn="h_unknown", params=dict(k=k, nf=nf, w=w, wide=0)))
    for nf, w in ((1, 1), (1, 3), (2, 2), (3, 1)):
        out.append(dict(name="latin/%d/%d" % (nf, w), fn="h_unknown", params=dict(k=3, nf=nf, w=w, wide=1)))
    for nf in (10, 40) + ((99, 100, 120) if big else ()):
        out.append(dict(name="many/%d" % nf, fn="h_unknown", params=dict(k=3, nf=nf, w=1, wide=0)))
    return out


def roundtrip(S, content, parts, mode):
    """content: the text between $ and *; parts: (talker, msgID, fields)"""
    E = S.mod("exceptions")
    R = S.mod("nmeareader").NMEAReader
    ck = S.str("ck", 2, charset(("0", "9"), ("A", "F"), ("a", "f")))
    x = xor(content)
    S.assume(S.all(S.hexval(ck[0]) == x // 16, S.hexval(ck[1]) == x % 16))
    text = "$" + content + "*" + ck + "\r\n"
    raw = text.encode("utf-8")
    out = []
    for form in (text, raw):
        try:
            m = R.parse(form, msgmode=mode, validate=1)
        except (E.NMEATypeError, E.NMEAParseError, E.NMEAMessageError):
            out.append("error")
            continue
        if m is None:
            out.append("none")
            continue
        S.check(S.eq(m.serialize(), raw), "serialize() is the input")
        if parts is not None:
            S.check(S.all(m.talker == parts[0], m.msgID == parts[1], m.checksum == ck), "talker, msgID and checksum")
            S.check(len(m.payload) == len(parts[2]) and S.all([S.eq(a, b) for a, b in zip(m.payload, parts[2])]), "payload")
            S.check(m.msgmode == mode, "mode")
        else:
            t = m.talker + m.msgID
            for f in m.payload: t = t + "," + f
            S.check(S.all(S.eq(t, content), m.checksum == ck), "parts make up the content")
        out.append([m.talker, m.msgID, list(m.payload), m.checksum, m.identity, attrs(m)])
    S.check(S.eq(out[0], out[1]), "same result from str and bytes")
    S.observe(out[0])


def h_known(S, p):
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    d = TABS[t][k]
    flat = expand(d, p["reps"])
    tim = [i for i, x in enumerate(flat) if x[1] in ("TM", "DT", "DM", "DTL", "LA", "LN")]
    if p["prof"] == "text":
        fs = []
        hot = S.pick("hot", [0, 3, len(flat) - 1]) if k == "SSNSNC" else 0      # there, square brackets are special
        for i, (n, att, raw) in enumerate(flat):
            fs.append(first if i == 0 and first is not None else "1" if att in ("IN", "DE") else S.str("f%d" % i, 2, FIELD) if i not in tim[:-1] and (k != "SSNSNC" or i == hot) else "01")
    else:
        fs = [f.text for f in build_fields(S, t, k, flat, p["prof"], p["reps"], dict((i, p["prof"]) for i in (tim[-1:] if p["prof"] == "norm" or p["ext"] > 2 else ())) if p["prof"] != "empty" else None)]
    delta = S.length("delta", -p["ext"], p["ext"]) if p["prof"] in ("norm", "neg") else 0
    if delta < 0: fs = fs[:max(delta + len(fs), 1 if first is not None else 0)]
    fs = fs + ["x%d" % i for i in range(delta)]
    content = tk + mid
    for f in fs: content = content + "," + f
    roundtrip(S, content, (tk, mid, fs), MODE[t])


def h_content(S, p):
    roundtrip(S, S.str("content", p["n"], CONTENT), None, p["mode"])


def h_unknown(S, p):
    a = S.str("talker", 1, ALNUM & ~charset("P"))
    b = S.str("talker2", 1, ALNUM)
    tk = a + b
    mi = S.str("msgid", p["k"], ALNUM & ~charset(("a", "z")))
    S.assume(S.no(S.any([mi == x for x in KNOWN if len(x) == p["k"]])))
    fs = [S.str("f%d" % i, p["w"], WIDE if p["wide"] else FIELD) for i in range(p["nf"])]
    content = tk + mi
    for f in fs: content = content + "," + f
    roundtrip(S, content, (tk, mi, fs), S.pick("mode", [0, 1, 2]))

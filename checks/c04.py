"""C04 every payload field decodes to its defined attribute and type."""
BOUNDS = {"quick": "every defined message (GET, SET, POLL, standard and proprietary; reference definitions pinned in data/defs.json), groups of 2 items; all fields symbolic at once in the profiles: normal widths, wide, signed/short, empty; "
                   "any 2 characters in one field; one field empty; every truncation; 1 and 4 extra trailing fields. Per type: any text of up to 8 characters (see C09/C11 for positions, dates and times)",
          "thorough": "as quick with groups of 1..5 items, one field wide or empty at each position, any 1..4 characters in one field at each position"}
ASSUMPTIONS = ["numeric fields are compared with int(text) / the exact decimal value within 1e-9", "field characters are printable ASCII without , * $",
               "variants of one identity are only tested with the number of fields that selects them (C21)"]


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for t, k, d in all_defs():
        for prof in ("norm", "long", "neg", "empty"):
            for reps in ((1, 2, 3, 5) if big and has_group(d) else (2,)):
                out.append(dict(name="all/%s/%s/%s%s" % (t, k, prof, reps if reps != 2 else ""), fn="h_all", params=dict(tab=t, key=k, prof=prof, reps=reps, extra=[0, 1, 4], big=big), cost=len(d)))
        out.append(dict(name="trunc/%s/%s" % (t, k), fn="h_trunc", params=dict(tab=t, key=k), cost=len(d)))
        out.append(dict(name="one/%s/%s" % (t, k), fn="h_one", params=dict(tab=t, key=k, kinds=["empty", "long", "any1", "any2", "any3", "any4"] if big else ["empty", "any2"]), cost=2 * len(d)))
    for att in ("CH", "ST", "HX", "QS", "IN", "DE"):
        for n in range(0, 11 if big else 8):
            out.append(dict(name="type/%s/%d" % (att, n), fn="h_type", params=dict(att=att, n=n), cost=n))
    for k in (90, 99, 100, 130):
        out.append(dict(name="nominal/%d" % k, fn="h_nominal", params=dict(n=k)))
    return out


def verify(S, m, fs, flat, label=""):
    a = attrs(m)
    S.check([x for x, v in a] == [n for n, _, _ in flat[:len(fs)]], "attribute names and order" + label)
    for (x, v), f in zip(a, fs):
        expect(S, f, v, "value of a %s field%s" % (f.att, label))


def run(S, p, fs, flat, extra=()):
    R = S.mod("nmeareader").NMEAReader
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    if flat and VKEYS.get(k, k)[:3] == "QTM" and t == "GETP" and len(fs) + len(extra) in (1, 2):
        # a one-field OK / two-field ERROR sentence is an acknowledgement (C21)
        S.assume(S.no(S.any(fs[0].text == "OK", fs[0].text == "ERROR")) if fs else True)
    m = R.parse(sentence(S, tk, mid, [f.text for f in fs] + list(extra)), msgmode=MODE[t], validate=0)
    S.check(m is not None, "message returned")
    S.check(m.identity == tk + mid + (first or "") and m.msgmode == MODE[t], "identity and mode") if fs or first is None else None
    S.observe([v for x, v in attrs(m)])
    return m


def h_all(S, p):
    t, k = p["tab"], p["key"]
    d = TABS[t][k]
    flat = expand(d, p["reps"])
    # positions, dates and times: all symbolic in the normal profile, the last of them in the others
    tim = [i for i, x in enumerate(flat) if x[1] in ("TM", "DT", "DM", "DTL", "LA", "LN")]
    fs = build_fields(S, t, k, flat, p["prof"], p["reps"], None if p["prof"] in ("norm", "empty") and len(tim) < (5 if p.get("big") else 3) else dict((i, p["prof"]) for i in tim[-2:]))
    extra = [] if variant(k) or has_none(d) else ["x%d" % i for i in range(S.pick("extra", p["extra"]))]
    if variant(k) and p["prof"] == "empty" and k in ("QTMSN", "QTMSN_ALT"):
        S.check(True, "variant needs its first field")
        return
    verify(S, run(S, p, fs, flat, extra), fs, flat)


def h_trunc(S, p):
    t, k = p["tab"], p["key"]
    d = TABS[t][k]
    if variant(k) or has_none(d):
        S.check(True, "see C05/C21")
        return
    flat = expand(d, 2)
    lo = 1 if firstfield(k) is not None else 0
    cnt = S.length("fields", lo, len(flat)) if len(flat) > lo else lo
    fs = build_fields(S, t, k, flat[:cnt], "neg", 2, {cnt - 1: "norm"})
    verify(S, run(S, p, fs, flat), fs, flat, " (truncated)")


def h_one(S, p):
    """one field empty or arbitrary text, the others fixed"""
    E = S.mod("exceptions")
    t, k = p["tab"], p["key"]
    d = TABS[t][k]
    flat = expand(d, 1)
    lo = 1 if firstfield(k) is not None or k in ("QTMSN", "QTMSN_ALT", "ASHR") else 0
    counts = count_names(d)
    idx = [i for i in range(lo, len(flat)) if flat[i][2] not in counts]
    if not idx:
        S.check(True, "no field")
        return
    j = S.pick("field", idx)
    kind = S.pick("kind", p["kinds"])
    first = firstfield(k)
    fs = []
    for i, (n, att, raw) in enumerate(flat):
        if i == 0 and first is not None: fs.append(F("IN", first, "int", (False, first)) if att == "IN" else F(att, first, "text"))
        elif i == 0 and k == "QTMSN": fs.append(F(att, "OK", "text"))
        elif raw in counts: fs.append(F("IN", "1", "int", (False, "1")))
        elif i == j and kind == "empty": fs.append(F(att, "", "empty"))
        elif i == j and kind == "long": fs.append(mkfield(S, "f", att, "long", FIELD & ~charset("[]")))
        elif i == j: fs.append(F(att, S.str("f", int(kind[3:]), FIELD & ~charset("[]")), "text" if att in TEXT else "any"))
        else: fs.append(fixedfield(att, i))
    f = fs[j]
    if f.kind == "any" and f.att in ("IN", "DE"):
        try:
            want = int(f.text) if f.att == "IN" else float(f.text)
        except ValueError:
            want = None
        try:
            m = run(S, p, fs, flat)
        except E.NMEATypeError:
            S.check(want is None, "number refused only when it is none")
            return
        S.check(want is not None, "text which is no number refused")
        got = attrs(m)[j][1]
        S.check(S.eq(got, want) if want is not None and want == want else want is not None and got != got, "number value")
        del fs[j]
        flat = flat[:j] + flat[j + 1:]
        a = [x for i, x in enumerate(attrs(m)) if i != j]
        S.check([x for x, v in a] == [n for n, _, _ in flat], "attribute names and order")
        for (x, v), g in zip(a, fs):
            expect(S, g, v, "value of a %s field" % g.att)
        return
    if f.kind == "any":           # up to four characters: never a position, date or time
        f.kind = "empty"
    verify(S, run(S, p, fs, flat), fs, flat)


def h_type(S, p):
    """str2val on any text"""
    E = S.mod("exceptions")
    M = S.mod("nmeamessage").NMEAMessage
    att = p["att"]
    t = S.str("text", p["n"], PRINT)
    if att in TEXT:
        S.check(S.eq(M.str2val(t, att), t), "text as is")
        return
    if p["n"] == 0:
        S.check(S.eq(M.str2val(t, att), ""), "blank stays blank")
        return
    ok = S.all([S.all(c >= "0", c <= "9") for c in t])
    try:
        v = M.str2val(t, att)
    except ValueError:
        S.check(S.no(ok), "digits are a number")
        return
    if att == "IN":
        S.check(S.eq(v, int(t)), "int(text)")
    else:
        w = float(t)
        S.check(S.type(v) is float and (S.eq(v, w) if w == w else v != v), "float(text)")
    S.observe(v)


def h_nominal(S, p):
    """many fields: unknown message, two-digit numbering"""
    R = S.mod("nmeareader").NMEAReader
    fs = [S.str("f%d" % i, 1, FIELD) for i in range(p["n"])]
    m = R.parse(sentence(S, "GN", "ZZZ", fs), validate=0)
    S.check([x for x, v in attrs(m)] == ["field_%02d" % (i + 1) for i in range(p["n"])], "field numbering")
    S.check(S.all([S.eq(v, f) for (x, v), f in zip(attrs(m), fs)]), "fields verbatim")

"""C08 hemisphere letters and position signs."""
BOUNDS = {"quick": "every defined message with a position or direction letter, both parse and generate: each position in turn with all digits symbolic ((d)ddmm.mmmmm, with and without '+' or '-', 0 or 7 decimals) and a letter of 0, 1 or 2 printable characters; any 6 printable characters as position text; all letters of the message symbolic together; sentences cut after the position; "
                   "generation with each position in turn any decimal of 7 places within +-90 / +-180 (normal and high precision), any integer, contrary / absent letters supplied, lone direction letters of any printable character; user-defined layouts (letters next to the position, both letters after both positions, two pairs, groups of pairs, lone letters before and after)",
          "thorough": "as quick with decimals of 0..10 places, position text of up to 10 printable characters, groups of 3 pairs"}
ASSUMPTIONS = ["text characters are printable ASCII without , * $", "other fields of the message: fixed valid constants"]
HEMI = {"LA": "LAD", "LN": "LND"}
USER = {"adjacent": [["lat", "LA"], ["ns", "LAD"], ["lon", "LN"], ["ew", "LND"]],
        "after": [["lat", "LA"], ["lon", "LN"], ["ns", "LAD"], ["ew", "LND"]],
        "lonfirst": [["x", "ST"], ["lon", "LN"], ["ew", "LND"], ["q", "IN"], ["lat", "LA"], ["ns", "LAD"]],
        "twice": [["lat1", "LA"], ["ns1", "LAD"], ["lon1", "LN"], ["ew1", "LND"], ["lat2", "LA"], ["ns2", "LAD"], ["lon2", "LN"], ["ew2", "LND"]],
        "lone": [["var", "LND"], ["dev", "LAD"], ["lat", "LA"], ["ns", "LAD"], ["dir", "LAD"], ["lon", "LN"], ["ew", "LND"], ["mag", "LND"]],
        "group": [["n", "IN"], ["grp", ["n", [["lat", "LA"], ["ns", "LAD"], ["lon", "LN"], ["ew", "LND"]]]], ["z", "ST"]],
        "fixgroup": [["grp", [2, [["lon", "LN"], ["ew", "LND"]]]], ["lat", "LA"], ["ns", "LAD"]]}


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    ks = [(t, k, d) for t, k, d in all_defs()] + [("USER", k, d) for k, d in USER.items()]
    for t, k, d in ks:
        flat = expand(d, 3 if big else 2)
        if not any(a in ("LA", "LN", "LAD", "LND") for n, a, r in flat): continue
        pos = [i for i, (n, a, r) in enumerate(flat) if a in HEMI]
        out.append(dict(name="parse/letters/%s/%s" % (t, k), fn="h_parse", params=dict(tab=t, key=k, j=None, kind="const", big=big), cost=5))
        out.append(dict(name="gen/letters/%s/%s" % (t, k), fn="h_gen", params=dict(tab=t, key=k, j=None, kind="const", big=big, hp=0), cost=5))
        for j in pos:
            for kind in ("norm", "sign", "nodec", "dec7", "any", "cut"):
                out.append(dict(name="parse/%s/%s/%s/%d" % (kind, t, k, j), fn="h_parse", params=dict(tab=t, key=k, j=j, kind=kind, big=big), cost=3))
            for kind in ("dec", "int"):
                for hp in (0, 1):
                    out.append(dict(name="gen/%s/%s/%s/%d/hp%d" % (kind, t, k, j, hp), fn="h_gen", params=dict(tab=t, key=k, j=j, kind=kind, big=big, hp=hp), cost=3))
    return out


def setup(p):
    """talker, message id, flat fields, user dictionary, first-field text, count names, mode"""
    t, k = p["tab"], p["key"]
    reps = 3 if p["big"] else 2
    if t == "USER":
        d = USER[k]
        return "P", "ZZQ", expand(d, reps), {"ZZQ": todict(d)}, None, count_names(d), 0, reps
    d = TABS[t][k]
    tk, mid, first = ident(t, k)
    return tk, mid, expand(d, reps), None, firstfield(k), count_names(d), MODE[t], reps


def todict(d):
    return {n: ((v[0], todict(v[1])) if isinstance(v, list) else v) for n, v in d}


def partner(flat):
    """index of the letter of each position: the next letter of its kind before another position of that kind"""
    out = {}
    for i, (n, a, r) in enumerate(flat):
        if a in HEMI:
            for j in range(i + 1, len(flat)):
                if flat[j][1] == a: break
                if flat[j][1] == HEMI[a]:
                    out[i] = j
                    break
    return out


def postext(S, att, kind, big):
    nd = 2 if att == "LA" else 3
    if kind == "any":
        return S.str("pos", 10 if big else 6), None
    if kind == "const":
        return ("1234.5", 12 + 34.5 / 60) if att == "LA" else ("12345.6", 123 + 45.6 / 60)
    n = {"nodec": 0, "dec7": 7}.get(kind, 5)
    a, mi, b = S.digits("d", nd), S.digits("m", 2), S.digits("f", n)
    sg = S.pick("sign", ["+", "-"]) if kind == "sign" else ""
    x = S.ratio(S.num(a) * 60 * 10 ** n + S.num(mi + b), 60 * 10 ** n)
    return cat([sg, a, mi, ".", b]), x


def h_parse(S, p):
    tk, mid, flat, user, first, counts, mode, reps = setup(p)
    j = p["j"]
    part = partner(flat)
    texts, want, letters = [], {}, {}
    for i, (n, a, r) in enumerate(flat):
        if i == 0 and first is not None: x = first
        elif r in counts: x = "%d" % reps
        elif a in HEMI:
            x, v = postext(S, a, p["kind"] if i == j or j is None else "const", p["big"])
            want[i] = v
        elif a in ("LAD", "LND"):
            if j is None: x = S.str("l%d" % i, 1)
            elif part.get(j) == i: x = S.str("l", S.pick("len", [1, 0, 2]))
            else: x = "S" if a == "LAD" else "W"
            letters[i] = x
        else: x = fixedfield(a, i).text
        texts.append(x)
        if i == j and p["kind"] == "cut": break
    R = S.mod("nmeareader").NMEAReader
    m = R.parse(sentence(S, tk, mid, texts), msgmode=mode, validate=0, userdefined=user)
    at = attrs(m)
    S.check([x for x, v in at] == [n for n, a, r in flat[:len(texts)]], "attributes")
    for i, v in want.items():
        got = at[i][1]
        if v is None:          # any text
            if S.type(got) is str:
                S.check(S.eq(got, ""), "invalid position is ''")
                continue
        S.check(S.type(got) is float, "position is a number")
        l = letters.get(part.get(i), "")
        south = S.eq(l, "S" if flat[i][1] == "LA" else "W")
        S.check(S.ite(south, got <= 0, got >= 0) if not hasattr(south, "t") else S.any(S.all(south, got <= 0), S.all(S.no(south), got >= 0)), "sign agrees with the letter")
        if v is not None:
            S.check(S.any(S.near(got, v, 1e-9), S.near(got, 0 - v, 1e-9)), "magnitude is the field's")
    for i, l in letters.items():
        S.check(S.eq(at[i][1], l), "letter kept")
    S.observe([v for x, v in at])


def h_gen(S, p):
    tk, mid, flat, user, first, counts, mode, reps = setup(p)
    j = p["j"]
    part = partner(flat)
    owned = set(part.values())
    kw = {}
    if first is not None: kw["msgId"] = first
    sup = S.pick("supplied", ["contrary", "none"]) if j is not None else "contrary"
    for i, (n, a, r) in enumerate(flat):
        if n in kw: continue
        if r in counts: kw[n] = reps
        elif a in HEMI:
            if i == j:
                if p["kind"] == "int": kw[n] = S.int("pos", -90 if a == "LA" else -180, 90 if a == "LA" else 180)
                else:
                    pl = S.length("places", 0, 10) if p["big"] else 7
                    lim = (90 if a == "LA" else 180) * 10 ** pl
                    kw[n] = S.decimal("pos", -lim, lim, pl)
            else: kw[n] = -(i + 1.5) if i % 2 else i + 2.25
        elif a in ("LAD", "LND"):
            if i not in owned or j is None: kw[n] = S.str("l%d" % i, 1)
            elif sup != "none": kw[n] = S.str("l%d" % i, 1) if part.get(j) == i else "N" if a == "LAD" else "E"
        elif a in TEXT: kw[n] = "a%d" % (i % 10)
        elif a == "IN": kw[n] = 7
        elif a == "DE": kw[n] = 1.5
    M = S.mod("nmeamessage").NMEAMessage
    S.now(datetime.datetime(2024, 5, 6, 7, 8, 9, tzinfo=datetime.timezone.utc))
    m = M(tk, mid, mode, hpnmeamode=bool(p["hp"]), userdefined=user, **kw)
    at = attrs(m)
    S.check([x for x, v in at] == [n for n, a, r in flat], "attributes")
    S.check(len(m.payload) == len(flat), "one field per attribute")
    for i, q in part.items():
        v = kw[flat[i][0]]
        hemi = ("S", "N") if flat[i][1] == "LA" else ("W", "E")
        for x in (m.payload[q], at[q][1]):
            neg = v < 0
            S.check(S.any(S.all(neg, S.eq(x, hemi[0])), S.all(S.no(neg), S.eq(x, hemi[1]))), "letter derived from the sign")
        S.check(S.eq(at[i][1], v), "position attribute unchanged")
        S.check(S.eq(m.payload[i][:1].isdigit(), True), "position text has no sign")
    for i, (n, a, r) in enumerate(flat):
        if a in ("LAD", "LND") and i not in owned:
            S.check(S.all(S.eq(m.payload[i], kw[n]), S.eq(at[i][1], kw[n])), "lone direction letter kept")
    S.observe(m.payload)


import datetime

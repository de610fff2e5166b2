"""C03 parse work bounded by the sentence, whatever a count field claims."""
BOUNDS = {"quick": "every message with a repeating group, 0..3 complete items, any count text of 1..4 characters or digits up to 12 and any other count field value; the work of the real code (loop iterations and calls) per parse is at most 400 + 60 per payload field; "
                   "every other defined message: same limit, well typed with n-1, n, n+3 fields",
          "thorough": "as quick with 0..8 items and every number of fields"}
ASSUMPTIONS = ["work is counted as loop iterations and function calls of the library's own code; built-in operations on one field count as one"]
COUNTED = ["ALC", "UBX03", "ASHRSBD", "ASHRSGA", "ASHRSGL", "ASHRSGO", "ASHRSGP", "ASHRSIR", "ASHRSLB", "ASHRSQZ", "ASHRSSB"]


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for t, k, d in all_defs():
        if any(isinstance(v, list) and not isinstance(v[0], int) and v[0] != "None" for n, v in d):
            for items in range(0, 9 if big else 4):
                for w in (1, 2, 3, 4, 6, 9, 12):
                    for kind in ("digits",) + (("any",) if w < 5 else ()):
                        out.append(dict(name="count/%s/%d/%s%d" % (k, items, kind, w), fn="h_count", params=dict(tab=t, key=k, items=items, w=w, kind=kind)))
        else:
            out.append(dict(name="plain/%s/%s" % (t, k), fn="h_plain", params=dict(tab=t, key=k, big=big)))
    out.append(dict(name="user/count", fn="h_user", params={}))
    return out


FIXED = {"IN": "1", "DE": "1.5", "TM": "010203.00", "DT": "010203", "DM": "010203", "DTL": "01022003", "LA": "0102.3", "LN": "00102.3", "HX": "1F"}


def limit(fields):
    return 400 + 60 * fields


def h_count(S, p):
    E = S.mod("exceptions")
    R = S.mod("nmeareader").NMEAReader
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    d = TABS[t][k]
    head = [(n, v) for n, v in d if not isinstance(v, list)]
    num, sub = [v for n, v in d if isinstance(v, list)][0]
    cf = S.digits("count", p["w"]) if p["kind"] == "digits" else S.str("count", p["w"], FIELD)
    fs, names = [], []
    for n, v in head:
        fs.append(cf if n == num else (first if n == "msgId" else FIXED.get(v, "x")))
        names.append(n)
    extra = S.length("extra", 0, len(sub) - 1)        # an incomplete item at the end
    body = [str(j % 10) for j in range(p["items"] * len(sub) + extra)]
    for j in range(len(body)):
        names.append("%s_%02d" % (sub[j % len(sub)][0], j // len(sub) + 1))
    fs = fs + body
    msg = sentence(S, tk, mid, fs)
    S.work_limit(limit(len(fs)), "work bounded by the sentence")
    try:
        m = R.parse(msg, msgmode=MODE[t], validate=0)
    except E.NMEATypeError:
        S.work_done()
        # only a count which is no integer is refused
        S.check(S.no(S.all([S.all(c >= "0", c <= "9") for c in cf])), "numeric count accepted")
        return
    S.work_done()
    S.check(m is not None, "message returned")
    got = [x for x, v in attrs(m)]
    c = getattr(m, num)
    want = len(head) + S.ite(c * len(sub) > len(body), len(body), S.ite(c > 0, c * len(sub), 0)) if S.type(c) is int else len(head)
    S.check(S.all(got == names[:len(got)], want == len(got)), "exactly the fields present")
    S.check(S.all([v == (fs[i] if S.type(v) is str else int(fs[i])) for i, (x, v) in enumerate(attrs(m)) if i >= len(head)]), "field values")
    S.observe(got)


def h_plain(S, p):
    E = S.mod("exceptions")
    R = S.mod("nmeareader").NMEAReader
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    fl = expand(TABS[t][k], 3)
    n = len(fl)
    cnt = S.pick("fields", list(range(n + 4)) if p["big"] else [max(n - 1, 0), n, n + 3])
    fs = [FIXED.get(fl[i][1], "x") if i < n and fl[i][1] != "IN" else S.digits("f%d" % i, 3) for i in range(cnt)]
    if first is not None and fs: fs[0] = first
    S.work_limit(limit(len(fs)), "work bounded by the sentence")
    try:
        R.parse(sentence(S, tk, mid, fs), msgmode=MODE[t], validate=0)
    except E.NMEAParseError:
        pass
    except E.NMEATypeError:
        pass
    S.work_done()
    S.check(True, "parsed")


def h_user(S, p):
    """a user-defined counted group, and nested groups"""
    R = S.mod("nmeareader").NMEAReader
    nested = S.pick("nested", [False, True])
    ud = {"ZZZ": {"num": "IN", "grp": ("num", {"a": "ST", "sub": (3, {"b": "ST"})} if nested else {"a": "ST"}), "tail": "ST"}}
    cf = S.digits("count", 9)
    k = S.length("items", 0, 6)
    fs = [cf] + [S.str("g%d" % i, 1, ALNUM) for i in range(k)]
    S.work_limit(limit(len(fs)), "work bounded by the sentence")
    m = R.parse(sentence(S, "GN", "ZZZ", fs), validate=0, userdefined=ud)
    S.work_done()
    S.check(len(attrs(m)) <= len(fs), "no attribute without a field")

"""C05 repeating groups."""
BOUNDS = {"quick": "every defined message with a repeating group (fixed, counted, indeterminate) and user-defined groups (also nested): 0..5, 9, 10, 12 items, user-defined ones also 99..101 (fixed-size groups also truncated after any item), every item field symbolic (one-character texts, digits, letters); trailing fields present and absent; counted groups also with a count lower or higher than the items present; "
                   "generation from suffixed keywords with the same numbers of items, then parsed back and rebuilt",
          "thorough": "as quick with every number of items from 0 to 16 and 33 and 101 items"}
ASSUMPTIONS = ["group items in generated messages: any two-character texts; numbers are symbolic (integers 10..99, decimals 1.0..9.9) in the last item and distinct constants in the others (number formats are C07's business)"]


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    counts = list(range(0, 17)) + [33, 101] if big else [0, 1, 2, 3, 4, 5, 9, 10, 12]
    for t, k, d in all_defs():
        if not has_group(d): continue
        fixed = [v[0] for n, v in d if isinstance(v, list)][0]
        for n in counts:
            if isinstance(fixed, int):
                if n > fixed: continue
            out.append(dict(name="parse/%s/%d" % (k, n), fn="h_parse", params=dict(tab=t, key=k, items=n), cost=n))
            if not isinstance(fixed, int) or n == fixed:
                out.append(dict(name="build/%s/%d" % (k, n), fn="h_build", params=dict(tab=t, key=k, items=n), cost=2 * n))
        if isinstance(fixed, str) and fixed != "None":
            for n in (0, 1, 2, 3):
                for c in (0, 1, 2, 4, 11):
                    if c != n:
                        out.append(dict(name="miscount/%s/%d/%d" % (k, n, c), fn="h_parse", params=dict(tab=t, key=k, items=n, claim=c), cost=n))
    for n in counts + ([] if big else [99, 100, 101]):
        for kind in ("none", "fixed", "count", "nested", "two"):
            out.append(dict(name="user/%s/%d" % (kind, n), fn="h_user", params=dict(items=n, kind=kind), cost=n))
    for n in (1, 2, 9, 10, 11, 35, 99) + ((100, 150) if big else ()):
        out.append(dict(name="groupsize/%d" % n, fn="h_size", params=dict(n=n)))
    return out


def item_field(S, nm, att):
    """one-character field and the value it must give"""
    if att == "IN":
        c = S.digits(nm, 1)
        return F(att, c, "int", (False, c))
    if att == "DE":
        c = S.digits(nm, 1)
        return F(att, c, "dec", (False, c, ""))
    return F(att, S.str(nm, 1, ALNUM), "text")


def split(d):
    i = [j for j, (n, v) in enumerate(d) if isinstance(v, list)][0]
    return d[:i], d[i][1][0], d[i][1][1], d[i + 1:]


def h_parse(S, p):
    R = S.mod("nmeareader").NMEAReader
    t, k, items = p["tab"], p["key"], p["items"]
    tk, mid, first = ident(t, k)
    head, num, sub, tail = split(TABS[t][k])
    claim = p.get("claim", items)
    fs, names = [], []
    for n, att in head:
        f = F("IN", "%d" % claim, "int", (False, "%d" % claim)) if n == num else F("ST", first, "text") if n == "msgId" and first else fixedfield(att)
        fs.append(f)
        names.append(n)
    size = items if not isinstance(num, int) else num
    for i in range(items):
        for n, att in sub:
            fs.append(item_field(S, "%s_%02d" % (n, i + 1), att))
            names.append("%s_%02d" % (n, i + 1))
    if not isinstance(num, int) or items == num:       # fields after the group
        for n, att in tail:
            fs.append(fixedfield(att))
            names.append(n)
    want = len(fs)
    if claim < items:
        # the group ends where the count says; the fields after it are then taken as those of the tail
        want = len(head) + claim * len(sub)
        assert not tail
    m = R.parse(sentence(S, tk, mid, [f.text for f in fs]), msgmode=MODE[t], validate=0)
    a = attrs(m)
    S.check([x for x, v in a] == names[:want], "attribute names")
    for (x, v), f in zip(a, fs):
        expect(S, f, v, "item values")
    S.observe([v for x, v in a])


def kwval(S, nm, att, j, sym):
    """texts are symbolic everywhere, numbers in one item (distinct concrete numbers elsewhere)"""
    if att == "IN": return S.int(nm, 10, 99) if sym else 10 + j
    if att == "DE": return S.decimal(nm, 10, 99, 1) if sym else (10 + j) / 4
    return S.str(nm, 2, ALNUM)


def h_build(S, p):
    """suffixed keywords -> payload -> same values -> same payload"""
    R = S.mod("nmeareader").NMEAReader
    M = S.mod("nmeamessage").NMEAMessage
    t, k, items = p["tab"], p["key"], p["items"]
    tk, mid, first = ident(t, k)
    head, num, sub, tail = split(TABS[t][k])
    kw, names = {}, []
    sym = items      # the item with symbolic numbers: the last
    for j, (n, att, i) in enumerate([(n, att, 0) for n, att in head] + [("%s_%02d" % (n, i + 1), att, i + 1) for i in range(items) for n, att in sub] +
                                    [(n, att, 0) for n, att in tail]):
        names.append(n)
        if n == num: kw[n] = items
        elif n == "msgId" and first: kw[n] = first
        elif att in ("TM", "DT", "DM", "DTL"): kw[n] = {"TM": "01:02:03.00", "DT": "2020-01-02", "DM": "2020-01-02", "DTL": "2020-01-02"}[att]
        else: kw[n] = kwval(S, n, att, j, i and i == sym)
    if items % 2 == 0:
        kw = dict(reversed(list(kw.items())))
    m = M(tk, mid, MODE[t], **kw)
    S.check([x for x, v in attrs(m)] == names, "attribute names of the generated message")
    S.check(len(m.payload) == len(names), "one field per attribute")
    for x, v in attrs(m):
        S.check(S.eq(v, kw[x]), "attribute of the generated message")
    m2 = R.parse(m.serialize(), msgmode=MODE[t], validate=1)
    S.check([x for x, v in attrs(m2)] == names, "attribute names parsed back")
    back = dict(attrs(m2))
    for x in names:
        if S.type(back[x]) in (int, float) and S.type(kw[x]) in (int, float):
            S.check(S.near(back[x], kw[x], 1e-9), "number parsed back")
        elif S.type(kw[x]) is str and S.type(back[x]) is str:
            S.check(S.eq(back[x], kw[x]), "text parsed back")
    m3 = M(tk, mid, MODE[t], **back)
    S.check(S.eq(m3.serialize(), m.serialize()), "same payload when rebuilt")
    S.observe(m.serialize())


def h_user(S, p):
    R = S.mod("nmeareader").NMEAReader
    M = S.mod("nmeamessage").NMEAMessage
    n, kind = p["items"], p["kind"]
    sub = {"none": ("None", {"a": "IN", "b_c": "ST"}), "fixed": (n, {"a": "IN", "b_c": "ST"}), "count": ("num", {"a": "IN", "b_c": "ST"}),
           "nested": ("num", {"a": "IN", "in": (2, {"b_c": "ST"})}), "two": (n, {"a": "IN", "b_c": "ST"})}[kind]
    d = {"num": "IN", "grp": sub, "last": "ST"}
    if kind == "two": d = {"num": "IN", "grp": sub, "mid": "ST", "grp2": (2, {"z": "ST"}), "last": "ST"}
    fs, names = ["%d" % n], ["num"]
    vals = [n]
    for i in range(1, n + 1):
        x = S.digits("a%d" % i, 1)
        fs.append(x); names.append("a_%02d" % i); vals.append(S.num(x))
        for j in ((1, 2) if kind == "nested" else (0,)):
            x = S.str("b%d.%d" % (i, j), 1, ALNUM)
            fs.append(x); vals.append(x)
            names.append("b_c_%02d_%02d" % (i, j) if j else "b_c_%02d" % i)
    for x in (["mid", "z_01", "z_02"] if kind == "two" else []) + ["last"]:
        y = S.str(x, 2, ALNUM)
        fs.append(y); vals.append(y); names.append(x)
    m = R.parse(sentence(S, "GN", "ZZZ", fs), validate=0, userdefined={"ZZZ": d})
    a = attrs(m)
    S.check([x for x, v in a] == names, "attribute names")
    S.check(S.all([v == w for (x, v), w in zip(a, vals)]), "values")
    if kind in ("nested",):        # suffix of the outer index only, checked above
        return
    m2 = M("GN", "ZZZ", 0, userdefined={"ZZZ": d}, **dict(a))
    S.check(S.eq(m2.payload, m.payload), "built from the suffixed keywords")


def h_size(S, p):
    """size of an indeterminate group in generated messages, keywords in any order"""
    M = S.mod("nmeamessage").NMEAMessage
    n = p["n"]
    names = ["data_%02d" % i for i in range(1, n + 1)]
    o = S.pick("order", ["up", "down", "mid"])
    names = names if o == "up" else names[::-1] if o == "down" else names[n // 2:] + names[:n // 2]
    kw = {x: "A" + x[-1] for x in names}
    m = M("P", "STMDRUPD", 0, **kw)
    S.check([x for x, v in attrs(m)] == ["data_%02d" % i for i in range(1, n + 1)], "items in order")
    S.check(m.payload == ["A%d" % (i % 10) for i in range(1, n + 1)], "item payload")

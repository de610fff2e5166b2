"""C01 checksum gate."""
BOUNDS = {"quick": "gate: content of 0..7 printable characters (any except * and $) with any 2-character checksum field and 0..6 content characters followed by a checksum field of 0,1,3 characters, validate 0..3; two fixed unknown headers with a field of up to 24 characters; "
                   "calc_checksum: text of up to 12 characters of any code point below 256; corruption: any printable content of 1..6 characters, any one character of content or checksum replaced by any character of code 0..255; "
                   "construction: any talker/identity of up to 5 characters and 0..3 fields of up to 3 characters, every standard GET message",
          "thorough": "as quick with content up to 9 (70 after a fixed header) characters, calc_checksum up to 40, corruption up to 9"}
ASSUMPTIONS = ["content characters are single-byte in UTF-8 (ASCII) when parsing; corruption tasks include non-ASCII replacement characters (str input)"]
CONTENT = PRINT & ~charset("*$")


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for n in list(range(0, 13)) + ([16, 24, 40] if big else []):
        out.append(dict(name="calc/%d" % n, fn="h_calc", params=dict(n=n)))
    for n in range(0, (10 if big else 8)):
        for v in (0, 1, 2, 3):
            out.append(dict(name="gate/%d/v%d" % (n, v), fn="h_gate", params=dict(n=n, v=v, k=2), cost=n))
    for n in (1, 2, 4, 8, 16, 24) + ((48, 70) if big else ()):
        for h in ("GNXYZ", "PXYZ"):
            for v in (0, 1, 3):
                out.append(dict(name="long/%s/%d/v%d" % (h, n, v), fn="h_gate", params=dict(n=n, v=v, k=2, head=h)))
    for n in (0, 3, 6):
        for k in (0, 1, 3):
            out.append(dict(name="gate/%d/ck%d" % (n, k), fn="h_gate", params=dict(n=n, v=1, k=k), cost=n))
    for n in range(1, (10 if big else 7)):
        for i in range(n + 2):
            out.append(dict(name="corrupt/%d/%d" % (n, i), fn="h_corrupt", params=dict(n=n, i=i), cost=n))
    for n in range(0, 4):
        for k in range(1, 4):
            out.append(dict(name="build/%d/%d" % (n, k), fn="h_build", params=dict(n=n, k=k)))
    for key in TABS["GET"]:
        if key != "FOO":
            out.append(dict(name="gen/%s" % key, fn="h_gen", params=dict(key=key)))
    return out


def isxor(S, r, x):
    """r is x as two upper-case hex digits"""
    if len(r) != 2:
        return False
    return S.all([S.all(S.hexval(ch) == v, S.no(S.any([ch == h for h in "abcdef"]))) for ch, v in ((r[0], x // 16), (r[1], x % 16))])


def h_calc(S, p):
    H = S.mod("nmeahelpers")
    s = S.str("content", p["n"], FULL)
    r = H.calc_checksum(s)
    S.check(isxor(S, r, xor(s)), "two upper-case hex digits of the XOR")
    S.observe(r)


def h_gate(S, p):
    E = S.mod("exceptions")
    R = S.mod("nmeareader").NMEAReader
    s = S.str("content", p["n"], CONTENT & ~charset(",") if "head" in p else CONTENT)
    if "head" in p: s = p["head"] + "," + s
    ck = S.str("ck", p["k"], CONTENT)
    msg = "$" + s + "*" + ck + "\r\n"
    x = xor(s)
    good = p["k"] == 2 and S.all(S.hexval(ck[0]) == x // 16, S.hexval(ck[1]) == x % 16)
    try:
        m = R.parse(msg, validate=p["v"])
    except E.NMEAParseError as err:
        ckerr = "invalid checksum" in str(err)
        if p["v"] & 1:
            S.check(S.any(S.no(good), S.no(ckerr)), "matching checksum never rejected as such")
        else:
            S.check(S.no(ckerr), "no checksum decision without VALCKSUM")
        S.observe("rejected")
        return
    except Exception:
        # another property decides whether this may escape; here: only a matching checksum gets this far
        S.check(good if p["v"] & 1 else True, "bad checksum got past the gate")
        return
    if p["v"] & 1:
        S.check(good, "only a matching checksum is accepted")
    S.check(m is None or S.all(m.checksum == ck), "checksum attribute")
    S.observe("accepted")


def h_corrupt(S, p):
    E = S.mod("exceptions")
    H = S.mod("nmeahelpers")
    R = S.mod("nmeareader").NMEAReader
    n, i = p["n"], p["i"]
    s = S.str("content", n, CONTENT)
    body = s + "*" + H.calc_checksum(s)
    j = i if i < n else i + 1                  # position in the body, skipping '*'
    c = S.str("repl", 1, FULL)
    old = body[j]
    if i < n:
        S.assume(c != old)
    else:
        S.assume(S.hexval(c) != S.hexval(old))
    bad = "$" + body[:j] + c + body[j + 1:] + "\r\n"
    try:
        m = R.parse(bad, validate=1)
    except E.NMEAParseError:
        S.check(True, "corrupted sentence rejected")
        return
    except Exception:
        S.fail("corrupted sentence got past the checksum gate")
    S.check(m is None, "corrupted sentence accepted")


def h_build(S, p):
    """checksum and sentence of a message built from a payload list"""
    M = S.mod("nmeamessage").NMEAMessage
    tk = S.str("talker", 2, ALNUM)
    mi = S.str("msgid", p["k"], ALNUM)
    fl = [S.str("f%d" % i, i + 1, FIELD) for i in range(p["n"])]
    content = tk + mi
    for f in fl:
        content = content + "," + f
    try:
        m = M(tk, mi, 0, payload=list(fl), validate=0)
    except Exception:
        S.check(True, "rejected")
        return
    S.check(m.checksum is not None and isxor(S, m.checksum, xor(content)), "checksum of a built message")
    S.check(m.serialize() == ("$" + content + "*" + m.checksum + "\r\n").encode("utf-8"), "sentence carries the checksum")
    S.observe(m.serialize())


def h_gen(S, p):
    """checksum of a message generated from keywords"""
    M = S.mod("nmeamessage").NMEAMessage
    import datetime
    S.now(datetime.datetime(2024, 5, 6, 7, 8, 9, 120000, tzinfo=datetime.timezone.utc))
    kw = {}
    for n, att, _ in expand(TABS["GET"][p["key"]], 1):
        if att in TEXT: kw[n] = S.str(n, 1, FIELD)
        if att == "IN": kw[n] = S.int(n, 0, 9)
    for n, v in TABS["GET"][p["key"]]:
        if isinstance(v, list) and not isinstance(v[0], int) and v[0] != "None":
            kw[v[0]] = 1
    m = M("GP", p["key"], 0, **kw)
    content = "GP" + p["key"]
    for f in m.payload:
        content = content + "," + f
    S.check(isxor(S, m.checksum, xor(content)), "checksum of a generated message")
    S.check(m.serialize() == ("$" + content + "*" + m.checksum + "\r\n").encode("utf-8"), "sentence carries the checksum")

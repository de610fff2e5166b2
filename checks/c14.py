"""C14 the reader returns every sentence of the stream, once, in order, byte exact."""
BOUNDS = {"quick": "every stream of 0..6 bytes of any value; every stream starting with '$' of up to 8 bytes; noise of 0..3 bytes of any value, sentence (known, unknown, proprietary, user-defined, any talker initial, 1..2 symbolic field characters), noise, sentence, noise; in-memory and plain read/readline streams; validate 0, 1, 3; GET, SET, POLL modes; read() and iteration; reading on after the end",
          "thorough": "as quick with any streams of up to 7 bytes, '$' streams of up to 9 bytes, noise of up to 5 bytes"}
ASSUMPTIONS = ["the stream's readline() ends at LF (io.BytesIO, files, serial ports); sockets end lines at CR LF (C16)", "parse() itself is decided by the other properties: here the reader's parsed data must equal parse() of the raw bytes"]
UDEF = {"XYZ": {"alpha": "ST", "num": "IN"}}
# (how, talker, id, fields): s = symbolic character, d = symbolic digit
KINDS = ("known", "unknown", "prop", "user", "any", "none", "badck", "poll", "set")


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for n in range(0, 8 if big else 7):
        for st in ("bytesio", "stub"):
            out.append(dict(name="free/%d/%s" % (n, st), fn="h_free", params=dict(n=n, lead=False, stream=st, v=(0, 1, 3)), cost=4 ** n, max_paths=400000, max_time=700))
    for n in range(3, 10 if big else 9):
        out.append(dict(name="lead/%d" % n, fn="h_free", params=dict(n=n, lead=True, stream="bytesio", v=(0,)), cost=3 ** n, max_paths=400000, max_time=700))
    for kind in KINDS:
        for a in range(0, 6 if big else 4):
            for b in (0, 1, 2, 3) if big else (0, 2):
                out.append(dict(name="struct/%s/%d%d" % (kind, a, b), fn="h_struct", params=dict(kind=kind, noise=[a, b, 1], two=kind not in ("known",)), cost=30 * (1 + a) * (1 + b), max_paths=200000))
    for nm in ("dollars", "dollar2", "trail"):
        out.append(dict(name="stray/%s" % nm, fn="h_stray", params=dict(kind=nm), cost=60))
    out.append(dict(name="many", fn="h_many", params=dict(), cost=30))
    return out


def make_stream(S, kind, data):
    import io
    return io.BytesIO(data) if kind == "bytesio" else Stub(data)


def run_reader(S, rd, how):
    """all (raw, parsed) until the end; reading on gives nothing more"""
    out = []
    if how == "iter":
        for raw, m in rd:
            out.append((raw, m))
            S.check(len(out) < 30, "iteration ends")
    else:
        while True:
            raw, m = rd.read()
            if raw is None and m is None: break
            out.append((raw, m))
            S.check(len(out) < 30, "reading ends")
    S.check(rd.read() == (None, None), "nothing after the end")
    return out


def expected(S, data, **kw):
    E = S.mod("exceptions")
    R = S.mod("nmeareader").NMEAReader
    exp = []
    for i, j, ok in frames(S, data)[0]:
        if not ok: continue
        try:
            exp.append((data[i:j], R.parse(data[i:j], **kw)))
        except (E.NMEAParseError, E.NMEATypeError, E.NMEAMessageError, E.NMEAStreamError):
            pass
    return exp


def compare(S, got, exp):
    S.check(len(got) == len(exp), "every sentence once")
    for (a, m), (b, x) in zip(got, exp):
        S.check(S.eq(a, b), "raw data is the piece of the stream")
        S.check(same_msg(S, m, x), "parsed data is the parsed piece")
    S.observe([a for a, m in got])


def h_free(S, p):
    R = S.mod("nmeareader").NMEAReader
    data = S.bytes("data", p["n"])
    if p["lead"]:
        data = b"$" + data[1:]
        S.assume(S.any([data[1] == c for c in (71, 80, 36)]))
    v = S.pick("validate", list(p["v"])) if p["n"] > 3 else 0
    rd = R(make_stream(S, p["stream"], data), validate=v, quitonerror=0)
    got = run_reader(S, rd, "iter" if p["stream"] == "bytesio" else "read")
    compare(S, got, expected(S, data, validate=v))


def sent(S, kind, nm):
    c = S.str(nm, 1, FIELD)
    if kind == "known": t = ckd(S, "GNTHS," + c + ",A")
    elif kind == "unknown": t = ckd(S, "GNZZ1,ab," + c)
    elif kind == "prop": t = ckd(S, "PGRMM," + c)
    elif kind == "user": t = ckd(S, "GNXYZ," + c + ",5")
    elif kind == "any": t = ckd(S, cat([S.str(nm + "t", 1, charset("".join(chr(x) for x in INITIALS)) & ~charset("P")), "N", "TXT,1,1,1,", c]))
    elif kind == "none": t = "$GN" + c + "\r\n"
    elif kind == "badck": t = "$GNTHS,1," + c + "*00\r\n"
    elif kind == "poll": t = ckd(S, "GNGPQ," + c)
    elif kind == "set": t = ckd(S, "PLSC," + c)
    return t.encode("utf-8")


def h_struct(S, p):
    R = S.mod("nmeareader").NMEAReader
    kind = p["kind"]
    parts = [S.bytes("n0", p["noise"][0]), sent(S, kind, "s0")]
    if p["two"]: parts += [S.bytes("n1", p["noise"][1]), sent(S, "known" if kind == "none" else kind if kind != "known" else "unknown", "s1") if p["noise"][0] < 2 else b"$GPTXT,1,1,1,a*00\r\n", b"$"]
    elif p["noise"][1]: parts += [S.bytes("n1", p["noise"][1])]
    data = b""
    for x in parts: data = data + x
    kw = dict(msgmode={"poll": 2, "set": 1}.get(kind, 0), validate=S.pick("validate", [0, 1, 3]), userdefined=UDEF if kind == "user" else None)
    rd = R(make_stream(S, S.pick("stream", ["bytesio", "stub"]), data), quitonerror=0, **kw)
    compare(S, run_reader(S, rd, S.pick("how", ["iter", "read"])), expected(S, data, **kw))


def h_stray(S, p):
    """stray '$' characters and noise that starts no sentence never cost the sentence"""
    R = S.mod("nmeareader").NMEAReader
    kind = p["kind"]
    n = S.length("n", 0, 3)
    noise = S.bytes("noise", n)
    for i in range(n):      # nothing in the noise starts a sentence
        nxt = noise[i + 1] if i + 1 < n else None
        if nxt is not None: S.assume(S.any(S.no(noise[i] == 36), S.no(S.any([nxt == c for c in INITIALS]))))
    extra = {"dollars": b"$" * S.length("k", 0, 3), "dollar2": b"$\xb5", "trail": b""}[kind]
    tk = S.pick("talker", ["GN", "P", "BD", "ZV"])
    raw = ckd(S, tk + "ZZ1," + S.str("s", 1, FIELD)).encode("utf-8")
    data = noise + extra + raw if kind != "trail" else raw + noise + raw
    rd = R(make_stream(S, S.pick("stream", ["bytesio", "stub"]), data), validate=1, quitonerror=S.pick("q", [0, 1]), nmeaonly=False)
    got = run_reader(S, rd, "iter")
    S.check(len(got) == (2 if kind == "trail" else 1), "the sentence is returned once")
    for a, m in got:
        S.check(S.eq(a, raw), "byte exact")
        S.check(m is not None and S.eq(m.serialize(), raw), "parsed")
    S.observe(len(got))


def h_many(S, p):
    """a stream of a dozen sentences"""
    R = S.mod("nmeareader").NMEAReader
    c = S.str("c", 2, FIELD)
    k = S.length("k", 10, 13)
    raws = [ckd(S, "GN%s,%d,1,1," % ("TXT" if i % 2 else "ZZ1", i) + (c if i % 5 == 0 else "x" * i)).encode("utf-8") for i in range(k)]
    data = b""
    for i, r in enumerate(raws): data = data + r + [b"", b"\r\n", b"\xb5b\x05\x06", b"$", b"\xd3\x00$$"][i % 5]
    rd = R(make_stream(S, S.pick("stream", ["bytesio", "stub"]), data), validate=S.pick("v", [0, 1]), quitonerror=0)
    got = run_reader(S, rd, "iter")
    S.check(len(got) == k, "every sentence once")
    for (a, m), r in zip(got, raws):
        S.check(S.all(S.eq(a, r), S.eq(m.serialize(), r)), "byte exact, in order")
    S.observe(len(got))

"""C15 error policies of the reader."""
BOUNDS = {"quick": "streams of 1..3 items of 11 kinds (good known / unknown sentence, wrong checksum, undecodable field, unknown identity under VALMSGID, bad header, badly formed sentence, non-UTF-8 sentence, plain noise, stray '$', blank) with symbolic characters, and an optional truncated last line of 1..3 symbolic bytes; every policy with handler and with logger, nmeaonly on and off, validate 1 and 3, in-memory and plain streams; any 2-character checksum field; '$' and any second byte; any stream of 0..6 bytes under the three policies",
          "thorough": "as quick with streams of 4 items and any stream of up to 7 bytes"}
ASSUMPTIONS = ["a '$' and talker initial at the very end of the stream (nothing of the line arrived) may or may not be reported", "parse() itself is decided by the other properties"]
KINDS = ("good", "plain", "badck", "field", "ident", "header", "form", "utf8", "noise", "dollar", "blank")


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for a in KINDS:
        for b in KINDS + ("",):
            out.append(dict(name="seq/%s/%s" % (a, b or "-"), fn="h_seq", params=dict(items=[a] + ([b, "@3", "good"] if big and b else [b, "@3"] if b else [])), cost=30, max_paths=200000))
    for t in (1, 2, 3):
        for a in ("", "badck", "good"):
            out.append(dict(name="trunc/%s/%d" % (a or "-", t), fn="h_trunc", params=dict(first=a, t=t), cost=20))
    for n in range(0, 8 if big else 7):
        out.append(dict(name="free/%d" % n, fn="h_free", params=dict(n=n), cost=5 ** n, max_paths=400000))
    out.append(dict(name="handlers", fn="h_handler", params=dict(), cost=10))
    return out


def item(S, kind, nm):
    """(bytes, what: 'ok' | 'none' | exception names | '', validate flags under which it is an error)"""
    c = S.str(nm, 1, FIELD) if kind in ("good", "plain", "field", "ident", "form") else None
    if kind == "good": return ckd(S, "GNTHS,,A") .encode("utf-8") if c is None else ckd(S, "GNVLW,1,%s" % c).encode("utf-8"), "ok"
    if kind == "plain": return ckd(S, "PGRMM," + c).encode("utf-8"), "ok"
    if kind == "badck":
        k = S.str(nm + "k", 2, FIELD)
        S.assume(S.no(S.eq(k.upper(), S.mod("nmeahelpers").calc_checksum("GNTHS,1,A"))))
        return ("$GNTHS,1,A*" + k + "\r\n").encode("utf-8"), "NMEAParseError"
    if kind == "field":
        S.assume(S.no(S.any([S.eq(c, x) for x in "0123456789"])))
        return ckd(S, "GNTXT,1,1,x" + c).encode("utf-8"), "NMEATypeError"
    if kind == "ident": return ckd(S, "GNQQ9," + c).encode("utf-8"), "ident"
    if kind == "header":
        b = S.bytes(nm + "b", 1)
        S.assume(S.no(S.any([b[0] == x for x in INITIALS + [36]])))
        return b"$" + b, "header"
    if kind == "form": return ("$GN" + c + "\r\n").encode("utf-8"), "form"
    if kind == "utf8": return b"$GN\xff\xfe*00\r\n", "form"
    if kind == "noise":
        b = S.bytes(nm + "b", 2)
        S.assume(S.all(S.no(b[0] == 36), S.no(b[1] == 36)))
        return b, ""
    return {"dollar": b"$", "blank": b"\r\n"}[kind], ""


def drive(S, rd, cap):
    """(messages, first exception)"""
    E = S.mod("exceptions")
    out = []
    while True:
        try:
            raw, m = rd.read()
        except (E.NMEAParseError, E.NMEATypeError, E.NMEAMessageError, E.NMEAStreamError) as err:
            return out, type(err).__name__
        if raw is None and m is None: return out, None
        out.append((raw, m))
        S.check(len(out) <= cap, "reading ends")


def policies(S, data, exp, errs, nmeaonly, v, cap, stream):
    """exp: [(position in the error order, raw)]; errs: exception names in order"""
    R = S.mod("nmeareader").NMEAReader

    def open_():
        import io
        return io.BytesIO(data) if stream == "bytesio" else Stub(data)
    kw = dict(validate=v, nmeaonly=nmeaonly)
    base = S.log_count()
    # ignore: silently skipped
    got, err = drive(S, R(open_(), quitonerror=0, errorhandler=lambda e: S.fail("handler not called with ERR_IGNORE"), **kw), cap)
    S.check(err is None, "ERR_IGNORE never raises")
    S.check(S.log_count() == base, "ERR_IGNORE logs nothing")
    check_list(S, got, [r for k, r in exp])
    # log to handler
    calls = []
    got2, err = drive(S, R(open_(), quitonerror=1, errorhandler=lambda e: calls.append(type(e).__name__), **kw), cap)
    S.check(err is None, "ERR_LOG never raises")
    check_list(S, got2, [r for k, r in exp])
    S.check(calls == errs, "handler called exactly once per error")
    S.check(S.log_count() == base, "handler replaces the logger")
    # log to logger
    got3, err = drive(S, R(open_(), quitonerror=1, **kw), cap)
    S.check(err is None, "ERR_LOG never raises")
    check_list(S, got3, [r for k, r in exp])
    S.check(S.log_count() == base + len(errs), "logged exactly once per error")
    # raise
    base = S.log_count()
    got4, err = drive(S, R(open_(), quitonerror=2, errorhandler=lambda e: calls.append("raised"), **kw), cap)
    S.check(err == (errs[0] if errs else None), "ERR_RAISE raises at the first error")
    check_list(S, got4, [r for k, r in exp if k == 0] if errs else [r for k, r in exp])
    S.check("raised" not in calls and S.log_count() == base, "ERR_RAISE neither logs nor calls the handler")
    for a, b, c in zip(got, got2, got3):
        S.check(S.all(same_msg(S, a[1], b[1]), same_msg(S, a[1], c[1])), "same messages whatever the policy")
    for a, b in zip(got, got4):
        S.check(same_msg(S, a[1], b[1]), "same messages up to the first error")
    S.observe([r for r, m in got], errs)


def check_list(S, got, exp):
    S.check(len(got) == len(exp), "messages other than the bad data are returned")
    for (a, m), r in zip(got, exp):
        S.check(S.eq(a, r), "same sentences in order")


def h_seq(S, p):
    only = S.pick("only", [False, True])
    v = S.pick("validate", [1, 3])
    data, exp, errs = b"", [], []
    prev = ""
    for i, kind in enumerate(p["items"]):
        if kind == "@3": kind = S.pick("third", KINDS)
        b, what = item(S, kind, "x%d" % i)
        if prev == "dollar" and kind in ("noise", "blank"):       # the '$' makes a header of the next byte
            if kind == "blank": what = "header"
            else:
                S.assume(S.no(S.any([b[0] == x for x in INITIALS])))
                what = "header"
        if prev == "dollar" and kind == "header": pass
        prev = kind
        data = data + b
        if what == "ok": exp.append((len(errs), b))
        elif what == "form":        # badly formed: returned without message, an error under VALMSGID
            if v & 2: errs.append("NMEAParseError")
            else: exp.append((len(errs), b))
        elif what == "ident":
            if v & 2: errs.append("NMEAParseError")
            else: exp.append((len(errs), b))
        elif what == "header":
            if only: errs.append("NMEAParseError")
        elif what: errs.append(what)
    policies(S, data, exp, errs, only, v, len(p["items"]) + 1, S.pick("stream", ["bytesio", "stub"]))


def h_trunc(S, p):
    """truncated last line"""
    data, exp, errs = b"", [], []
    if p["first"]:
        b, what = item(S, p["first"], "x")
        data = b
        if what == "ok": exp.append((0, b))
        else: errs.append(what)
    tail = S.bytes("tail", p["t"])
    S.assume(S.all([S.no(tail[i] == 10) for i in range(p["t"])]))
    data = data + b"$G" + tail
    errs.append("NMEAStreamError")
    policies(S, data, exp, errs, S.pick("only", [False, True]), S.pick("validate", [1, 3] if p["first"] else [0, 1, 3]), 3, S.pick("stream", ["bytesio", "stub"]))


def h_free(S, p):
    """any bytes: errors as the independent framing and parse() say"""
    E = S.mod("exceptions")
    R = S.mod("nmeareader").NMEAReader
    data = S.bytes("data", p["n"])
    only = S.pick("only", [False, True])
    v = S.pick("validate", [0, 1, 3]) if p["n"] < 5 else 1
    fr, odd = frames(S, data)
    ev = [(i, "head", None) for i in odd] if only else []
    for i, j, ok in fr:
        if j - i == 2 and not ok: S.assume(False)
        ev.append((i, "line" if ok else "cut", data[i:j]))
    exp, errs = [], []
    for i, k, raw in sorted(ev, key=lambda x: x[0]):
        if k == "head": errs.append("NMEAParseError")
        elif k == "cut": errs.append("NMEAStreamError")
        else:
            try:
                R.parse(raw, validate=v)
                exp.append((len(errs), raw))
            except (E.NMEAParseError, E.NMEATypeError, E.NMEAMessageError, E.NMEAStreamError) as err:
                errs.append(type(err).__name__)
    policies(S, data, exp, errs, only, v, p["n"] + 1, "bytesio")


def h_handler(S, p):
    """the handler gets the very exception that parse() raises; one that raises stops the reading"""
    E = S.mod("exceptions")
    R = S.mod("nmeareader").NMEAReader
    import io
    k = S.str("k", 2, FIELD)
    S.assume(S.no(S.eq(k.upper(), S.mod("nmeahelpers").calc_checksum("GNTHS,1,A"))))
    bad = ("$GNTHS,1,A*" + k + "\r\n").encode("utf-8")
    try:
        R.parse(bad)
        S.fail("wrong checksum raises")
    except E.NMEAParseError as err:
        want = str(err)
    got = []
    rd = R(io.BytesIO(bad + bad), quitonerror=1, errorhandler=lambda e: got.append(e))
    S.check(rd.read() == (None, None), "bad data skipped")
    S.check(len(got) == 2 and all(isinstance(e, E.NMEAParseError) for e in got), "handler gets the exceptions")
    S.check(S.all(S.eq(str(got[0]), want), S.eq(str(got[1]), want)), "with their message")
    # any callable is a handler, also one that is false as a condition (such as a list of errors that collects them)

    class Collect:
        def __init__(self): self.errs = []
        def __call__(self, e): self.errs.append(e)
        def __bool__(self): return len(self.errs) > 1
        def __len__(self): return len(self.errs)
    c = Collect()
    base = S.log_count()
    rd = R(io.BytesIO(bad + bad), quitonerror=1, errorhandler=c)
    S.check(rd.read() == (None, None), "bad data skipped")
    S.check(len(c.errs) == 2 and S.log_count() == base, "handler called exactly once per error")
    S.observe(len(got))

"""C02 parsing ends in a message, None or a library error."""
BOUNDS = {"quick": "any bytes of length 0..5 and any str (all code points but surrogates) of length 0..4, every mode and validate value 0..3; any printable content of 1..5 characters framed as a sentence; "
                   "every defined message (standard, proprietary, GET/SET/POLL) with all fields any text of 1 or 2 printable characters, all fields empty, or well typed, and with 0, 1, 2, n-1, n, n+1 (well typed: every number up to n+2) fields; one field empty or any 5 characters among well-typed ones",
          "thorough": "as quick with bytes up to 7, str up to 5, framed content up to 7, every number of fields and field texts of 1..3 characters"}
ASSUMPTIONS = ["the message argument is a str or bytes object", "field texts longer than the bound are not covered (Python's own int() digit limit excepted: it raises ValueError like any other bad text)"]
NOBR = FIELD & ~charset("[]")
CONTENT = PRINT & ~charset("$")


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for n in range(0, 8 if big else 6):
        out.append(dict(name="bytes/%d" % n, fn="h_bytes", params=dict(n=n), cost=100 * n, max_paths=10**6))
    for n in range(0, 6 if big else 5):
        out.append(dict(name="str/%d" % n, fn="h_str", params=dict(n=n), cost=100 * n, max_paths=10**6))
    for n in range(1, 8 if big else 6):
        for mode in (0, 1, 2):
            for v in (0, 2):
                out.append(dict(name="framed/%d/m%d/v%d" % (n, mode, v), fn="h_framed", params=dict(n=n, mode=mode, v=v), cost=10 * n))
    for t, k, d in all_defs(TABS):
        for prof in ("text", "one") + (("three",) if big else ()):
            out.append(dict(name="def/%s/%s/%s" % (t, k, prof), fn="h_def", params=dict(tab=t, key=k, prof=prof, big=big), cost=len(d)))
        out.append(dict(name="count/%s/%s" % (t, k), fn="h_count", params=dict(tab=t, key=k), cost=len(d)))
        out.append(dict(name="mixed/%s/%s" % (t, k), fn="h_mixed", params=dict(tab=t, key=k), cost=len(d)))
    return out


def attempt(S, msg, **kw):
    E = S.mod("exceptions")
    R = S.mod("nmeareader").NMEAReader
    M = S.mod("nmeamessage").NMEAMessage
    try:
        m = R.parse(msg, **kw)
    except (E.NMEAParseError, E.NMEAMessageError, E.NMEATypeError, E.NMEAStreamError):
        S.check(True, "library error")
        S.observe("error")
        return None
    except Exception as err:
        S.fail("foreign exception escapes parse()")
    S.check(m is None or isinstance(m, M), "message or None")
    if m is not None: S.observe([v for k, v in attrs(m)])
    return m


def h_bytes(S, p):
    mode = S.pick("mode", [0, 1, 2])
    attempt(S, S.bytes("msg", p["n"]), msgmode=mode, validate=S.pick("v", [0, 1, 2, 3]))


def h_str(S, p):
    attempt(S, S.str("msg", p["n"], FULL, wide=True), msgmode=S.pick("mode", [0, 1, 2]), validate=S.pick("v", [0, 1, 2, 3]))


def h_framed(S, p):
    msg = "$" + S.str("content", p["n"], CONTENT) + "*00\r\n"
    attempt(S, msg, msgmode=p["mode"], validate=p["v"])


def h_def(S, p):
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    reps = 2 if p["prof"] == "one" else 1
    fl = expand(TABS[t][k], reps)
    n = len(fl)
    cnt = S.pick("fields", list(range(n + 2)) if p["big"] else sorted(set([0, 1, min(2, n), max(n - 1, 0), n, n + 1])))
    w = {"one": 1, "text": 2, "three": 3}[p["prof"]]
    hot = S.pick("hot", list(range(4, 8))) if k == "SSNSNC" else -1       # there, square brackets in one field only
    fs = [S.str("f%d" % i, w, FIELD if hot in (-1, i) else NOBR) for i in range(cnt)]
    if first is not None and fs: fs[0] = first
    attempt(S, sentence(S, tk, mid, fs), msgmode=MODE[t], validate=0)


def h_count(S, p):
    """empty fields, and well-typed fields in any number"""
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    fl = expand(TABS[t][k], 2)
    n = len(fl)
    cnt = S.length("fields", 0, n + 2)
    if S.pick("empty", [True, False]):
        fs = [""] * cnt
    else:
        hot = S.pick("hot", list(range(4, 8))) if k == "SSNSNC" else -1
        fs = [mkfield(S, "f%d" % i, fl[i][1] if i < n and fl[i][1] not in ("Z2", "Y1") else "ST", "norm", FIELD if hot in (-1, i) else NOBR).text if i >= n or fl[i][1] not in ("TM", "DT", "DM", "DTL", "LA", "LN") else "120101.00" for i in range(cnt)]
    if first is not None and fs: fs[0] = first
    attempt(S, sentence(S, tk, mid, fs), msgmode=MODE[t], validate=0)


def h_mixed(S, p):
    """well-typed sentence with one field replaced"""
    t, k = p["tab"], p["key"]
    tk, mid, first = ident(t, k)
    fl = expand(TABS[t][k], 1)
    lo = 0 if first is None else 1
    if len(fl) <= lo:
        S.check(True, "no field")
        return
    j = S.length("field", lo, len(fl) - 1)
    kind = S.pick("kind", ["empty", "any"])
    fixed = {"IN": "1", "DE": "1.5", "TM": "010203.00", "DT": "010203", "DM": "010203", "DTL": "01022003", "LA": "0102.3", "LN": "00102.3"}
    fs = [fixed.get(a, "1") for _, a, _ in fl]
    if first is not None: fs[0] = first
    fs[j] = "" if kind == "empty" else S.str("f", 5, FIELD)
    attempt(S, sentence(S, tk, mid, fs), msgmode=MODE[t], validate=0)

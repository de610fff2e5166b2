"""C11 date and time fields."""
import datetime
BOUNDS = {"quick": "date2utc / date2str (and str2val / val2str) for ddmmyy, mmddyy, ddmmyyyy: every text of the right number of digits, every text of 0..9 printable characters, every valid date 1969..2068 (ddmmyyyy: 1000..9999) as date and datetime object and as yyyymmdd / yyyy-mm-dd string; time2utc / time2str: every hhmmss and hhmmss.s of 1..6 decimals, every text of 0..10 printable characters, every time to the microsecond as time and datetime object and hhmmss[.ss] / hh:mm:ss[.ss] string; "
                   "well-formed texts with any one character replaced by any Latin-1 character; one message per date format and one with a time, from string and from object keywords",
          "thorough": "as quick with texts of up to 12 printable characters, two characters replaced, every message with a date or time field from string keywords"}
ASSUMPTIONS = ["strptime / strftime are the engine's model of CPython's (pattern and field ranges taken from _strptime), sampled against the real ones", "seven or more decimals of a second, and 'hhmmss.' without decimals, are outside the claim"]
FMT = {"DT": "dmy", "DM": "mdy", "DTL": "dmY"}


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for f in FMT:
        out.append(dict(name="date/dec/%s" % f, fn="h_date", params=dict(form=f)))
        out.append(dict(name="date/enc/%s" % f, fn="h_denc", params=dict(form=f)))
        for n in range(0, 13 if big else 10):
            out.append(dict(name="date/any/%s/%d" % (f, n), fn="h_dany", params=dict(form=f, n=n), cost=n))
        L = 8 if f == "DTL" else 6
        for i in range(L):
            for j in range(i, L):
                if j > i and not big: continue
                out.append(dict(name="date/repl/%s/%d.%d" % (f, i, j), fn="h_drepl", params=dict(form=f, i=i, j=j), cost=3))
    for n in range(0, 7):
        out.append(dict(name="time/dec/%d" % n, fn="h_time", params=dict(n=n)))
    out.append(dict(name="time/enc", fn="h_tenc", params={}))
    for n in range(0, 13 if big else 11):
        out.append(dict(name="time/any/%d" % n, fn="h_tany", params=dict(n=n), cost=n))
    for i in range(9):
        for j in range(i, 9):
            if j > i and not big: continue
            out.append(dict(name="time/repl/%d.%d" % (i, j), fn="h_trepl", params=dict(i=i, j=j), cost=3))
    k = 0
    for t, key, d in all_defs():
        for n, att, r in expand(d, 1):
            if att in ("DT", "DTL", "DM", "TM") and n == r:
                if big or (t, key, n) in {("GET", "RMC", "date"), ("GET", "ZDA", "time"), ("GETP", "ASHRVCT", "time"), ("GETP", "GPPADV110", "time")} or (att in ("DTL", "DM") and k < 6):
                    k += att in ("DTL", "DM")
                    out.append(dict(name="msg/%s/%s/%s" % (t, key, n), fn="h_msg", params=dict(tab=t, key=key, attr=n, att=att)))
    for att in ("DT", "DM", "DTL", "TM"):
        out.append(dict(name="msg/USER/%s" % att, fn="h_msg", params=dict(tab="USER", key=att, attr="x", att=att)))
    return out


def want_date(S, form, t):
    y, m, d = date_parts(S, form, t)
    ok = valid_date(S, y, m, d)
    return y, m, d, S.all(ok, y >= 1) if form == "DTL" else ok


def check_date(S, form, t, v):
    y, m, d, ok = want_date(S, form, t)
    if S.type(v) is str:
        S.check(S.all(S.eq(v, ""), S.no(ok)), "a date decodes")
        return False
    S.check(S.all(S.type(v) is datetime.date, ok, v.year == y, v.month == m, v.day == d), "decodes to exactly that date")
    return True


def h_date(S, p):
    H, M = S.mod("nmeahelpers"), S.mod("nmeamessage").NMEAMessage
    f = p["form"]
    t = S.digits("t", 8 if f == "DTL" else 6)
    v = H.date2utc(t, f)
    if check_date(S, f, t, v):
        S.check(S.eq(M.str2val(t, f), v), "str2val agrees")
        S.assume(v.year >= 1000)
        S.check(S.eq(H.date2str(v, f), t), "re-encodes to the same digits")
        S.check(S.eq(M.val2str(v, f), t), "val2str agrees")
    else:
        S.check(S.eq(M.str2val(t, f), ""), "str2val agrees")
    S.observe(v)


def mkdate(S, f):
    y = S.int("y", 1969 if f != "DTL" else 1000, 2068 if f != "DTL" else 9999)
    m, d = S.int("m", 1, 12), S.int("d", 1, 31)
    S.assume(valid_date(S, y, m, d))
    return y, m, d


def two(S, nm, lo, hi):
    """two digit text of a number"""
    t = S.digits(nm, 2)
    S.assume(S.all(S.num(t) >= lo, S.num(t) <= hi))
    return t


def h_denc(S, p):
    H, M = S.mod("nmeahelpers"), S.mod("nmeamessage").NMEAMessage
    f = p["form"]
    kind = S.pick("kind", ["date", "datetime", "text", "dashed"])
    if kind in ("date", "datetime"):
        y, m, d = mkdate(S, f)
        v = datetime.date(y, m, d) if kind == "date" else datetime.datetime(y, m, d, S.int("h", 0, 23), 4, 5, 6)
    else:
        Y, mm, dd = S.digits("Y", 4), two(S, "M", 1, 12), two(S, "D", 1, 31)
        y, m, d = S.num(Y), S.num(mm), S.num(dd)
        S.assume(S.all(valid_date(S, y, m, d), y >= (1969 if f != "DTL" else 1000), y <= (2068 if f != "DTL" else 9999)))
        v = Y + mm + dd if kind == "text" else Y + "-" + mm + "-" + dd
    t = M.val2str(v, f)
    S.check(len(t) == (8 if f == "DTL" else 6), "field length")
    y2, m2, d2 = date_parts(S, f, t)
    S.check(S.all(t.isdigit(), y2 == y, m2 == m, d2 == d), "field denotes the date supplied")
    if kind in ("date", "datetime"): S.check(S.eq(H.date2str(v, f), t), "date2str agrees")
    back = H.date2utc(t, f)
    S.check(S.all(S.type(back) is datetime.date, back.year == y, back.month == m, back.day == d), "decodes to the date supplied")
    S.observe(t)


def h_dany(S, p):
    f, n = p["form"], p["n"]
    L = 8 if f == "DTL" else 6
    t = S.str("t", n, PRINT)
    judge_date(S, f, t)


def judge_date(S, f, t):
    v = S.mod("nmeahelpers").date2utc(t, f)
    if len(t) != (8 if f == "DTL" else 6) or not S.fork(S.all(*[S.any(*[S.eq(c, d) for d in "0123456789"]) for c in t])):
        S.check(S.all(S.type(v) is str, S.eq(v, "")), "anything else decodes to ''")
    else:
        check_date(S, f, t, v)
    S.observe(v)


def h_drepl(S, p):
    f, i, j = p["form"], p["i"], p["j"]
    b = {"DT": "280299", "DM": "022899", "DTL": "28021999"}[f]
    cs = list(b)
    cs[i] = S.str("c", 1, BYTES)
    if j > i: cs[j] = S.str("e", 1, BYTES)
    S.assume(S.no(S.any(*[S.eq(c, x) for c in cs for x in "\xb2\xb3\xb9"])))       # superscript digits: isdigit, no claim
    judge_date(S, f, cat(cs))


def time_want(S, t):
    """(h, m, s, us, valid) of hhmmss[.s...]"""
    h, m, s = S.num(t[0:2]), S.num(t[2:4]), S.num(t[4:6])
    f = t[7:]
    return h, m, s, S.num(f) * 10 ** (6 - len(f)) if len(f) else 0, S.all(h < 24, m < 60, s < 60)


def check_time(S, t, v):
    h, m, s, us, ok = time_want(S, t)
    if S.type(v) is str:
        S.check(S.all(S.eq(v, ""), S.no(ok)), "a time decodes")
        return False
    S.check(S.all(S.type(v) is datetime.time, ok, v.hour == h, v.minute == m, v.second == s, v.microsecond == us, v.tzinfo is None), "decodes to exactly that time")
    return True


def h_time(S, p):
    H, M = S.mod("nmeahelpers"), S.mod("nmeamessage").NMEAMessage
    n = p["n"]
    t = S.digits("t", 6)
    if n: t = t + "." + S.digits("f", n)
    v = H.time2utc(t)
    S.check(S.eq(M.str2val(t, "TM"), v), "str2val agrees")
    if check_time(S, t, v):
        w = (t + "." if not n else t) + "00"
        S.check(S.eq(H.time2str(v), w[:9]), "re-encodes to the same digits, to hundredths")
        S.check(S.eq(M.val2str(v, "TM"), w[:9]), "val2str agrees")
    S.observe(v)


def h_tenc(S, p):
    H, M = S.mod("nmeahelpers"), S.mod("nmeamessage").NMEAMessage
    kind = S.pick("kind", ["time", "datetime", "utc", "text", "colons", "text.ff", "colons.ff"])
    if kind in ("time", "datetime", "utc"):
        h, m, s, us = S.int("h", 0, 23), S.int("m", 0, 59), S.int("s", 0, 59), S.int("us", 0, 999999)
        v = datetime.time(h, m, s, us) if kind == "time" else datetime.datetime(2024, 2, 29, h, m, s, us, tzinfo=datetime.timezone.utc if kind == "utc" else None)
    else:
        hh, mm, ss = two(S, "h", 0, 23), two(S, "m", 0, 59), two(S, "s", 0, 59)
        ff = S.digits("f", 2) if kind.endswith(".ff") else ""
        h, m, s, us = S.num(hh), S.num(mm), S.num(ss), S.num(ff) * 10000 if len(ff) else 0
        c = ":" if kind.startswith("colons") else ""
        v = hh + c + mm + c + ss + ("." + ff if len(ff) else "")
    t = M.val2str(v, "TM")
    if kind in ("time", "datetime", "utc"):
        S.check(S.eq(H.time2str(v), t), "time2str agrees")
        S.check(len(t) == 9, "field length")
    S.check(S.all(len(t) in (6, 9), (t[:6] + t[7:]).isdigit(), S.eq(t[6:7], "." if len(t) == 9 else "")), "layout hhmmss.ss")
    h2, m2, s2, us2, ok = time_want(S, t)
    S.check(S.all(h2 == h, m2 == m, s2 == s, us2 <= us, us - us2 < 10000), "field denotes the time supplied to hundredths")
    back = H.time2utc(t)
    S.check(S.all(S.type(back) is datetime.time, back.hour == h, back.minute == m, back.second == s, back.microsecond == us2), "decodes to the time supplied")
    S.observe(t)


def judge_time(S, t):
    v = S.mod("nmeahelpers").time2utc(t)
    n = len(t)
    shape = n == 6 or 8 <= n <= 13
    dig = t[:6] + t[7:]
    if n == 7 or n > 13:
        S.check(S.any(S.type(v) is datetime.time, S.eq(v, "")), "'' or a time")
    elif not shape or not S.fork(S.all(n == 6 or S.eq(t[6], "."), *[S.any(*[S.eq(c, d) for d in "0123456789"]) for c in dig])):
        S.check(S.all(S.type(v) is str, S.eq(v, "")), "anything else decodes to ''")
    else:
        check_time(S, t, v)
    S.observe(v)


def h_tany(S, p):
    judge_time(S, S.str("t", p["n"], PRINT))


def h_trepl(S, p):
    cs = list("235959.99")
    cs[p["i"]] = S.str("c", 1, BYTES)
    if p["j"] > p["i"]: cs[p["j"]] = S.str("e", 1, BYTES)
    S.assume(S.no(S.any(*[S.eq(c, x) for c in cs for x in "\xb2\xb3\xb9"])))
    judge_time(S, cat(cs))


def h_msg(S, p):
    """a message from a string keyword and from the equivalent object denote the same"""
    t, k, n, att = p["tab"], p["key"], p["attr"], p["att"]
    M, R = S.mod("nmeamessage").NMEAMessage, S.mod("nmeareader").NMEAReader
    S.now(datetime.datetime(2024, 5, 6, 7, 8, 9, tzinfo=datetime.timezone.utc))
    user, mode = None, 0
    if t == "USER": tk, mid, first, user = "P", "ZZQ", None, {"ZZQ": {"x": att, "y": "ST"}}
    else:
        tk, mid, first = ident(t, k)
        mode = MODE[t]
    kw = {"msgId": first} if first is not None else {}
    if att == "TM":
        hh, mm, ss = two(S, "h", 0, 23), two(S, "m", 0, 59), two(S, "s", 0, 59)
        c = S.pick("sep", ["", ":"])
        txt = hh + c + mm + c + ss
        obj = datetime.time(S.num(hh), S.num(mm), S.num(ss))
    else:
        Y, mm, dd = S.digits("Y", 4), two(S, "M", 1, 12), two(S, "D", 1, 31)
        y, m, d = S.num(Y), S.num(mm), S.num(dd)
        S.assume(S.all(valid_date(S, y, m, d), y >= (1969 if att != "DTL" else 1000), y <= (2068 if att != "DTL" else 9999)))
        c = S.pick("sep", ["", "-"])
        txt = Y + c + mm + c + dd
        obj = datetime.date(y, m, d)
    got = []
    for v in (txt, obj):
        msg = M(tk, mid, mode, userdefined=user, **dict(kw, **{n: v}))
        m2 = R.parse(msg.serialize(), msgmode=mode, validate=1, userdefined=user)
        got.append(getattr(m2, n))
    S.check(S.all(S.type(got[0]) is S.type(obj), S.eq(got[0], obj), S.eq(got[1], obj)), "string and object keywords denote the same")
    S.observe(got)

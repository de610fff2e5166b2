"""Shared harness code (executed in the namespace of every check, before it)."""
import json
import os
from symx.api import FIELD, PRINT, ALNUM, DIGITS, BYTES, charset, FULL, ASCII

DEFS = json.load(open("/verif/data/defs.json")) if os.path.exists("/verif/data/defs.json") else \
    json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "defs.json")))
TABS = DEFS["tabs"]
TALKERS, PREFIX = DEFS["talkers"], DEFS["prefix"]
HEXU = "0123456789ABCDEF"
MODE = {"GET": 0, "SET": 1, "POLL": 2, "GETP": 0, "SETP": 1, "POLLP": 2}
TEXT = ("CH", "ST", "HX", "QS", "LAD", "LND")
# variants of one message identity: definition key -> sentence identity
VARIANT = {"QTMCFGGEOFENCE": ("_DIS", "_POLY"), "QTMCFGMSGRATE": ("_NOVER", "_INTF", "_INTFNOVER"), "QTMCFGPPS": ("_DIS",),
           "QTMCFGSAT": ("_LOW",), "QTMCFGUART": ("_BAUD", "_CURR", "_CURRBAUD"), "QTMSN": ("_ALT",),
           "STMDRSENMSG": ("_3", "_24", "_30", "_31")}
VKEYS = {b + v: b for b, vs in VARIANT.items() for v in vs}
# no sentence of their own: definition with deliberately invalid types / acknowledgement variants
SKIP = {("GET", "FOO"), ("GETP", "QTMACK"), ("GETP", "QTMNAK")}


def family(key):
    """(prefix, msgId) for a definition of a first-field family, else None"""
    for p in PREFIX:
        if key.startswith(p) and key != p:
            return p, key[len(p):]
    return None


def ident(tab, key):
    """talker, msgID and fixed first field (or None) of the sentences of a definition"""
    if not tab.endswith("P") and key in DEFS["msgids"]:
        return "GN", key, None
    f = family(key)
    if f:
        return "P", f[0], f[1]
    return "P", VKEYS.get(key, key), None


def all_defs(tabs=("GET", "POLL", "GETP", "SETP", "POLLP")):
    for t in tabs:
        for k, d in TABS[t].items():
            if (t, k) in SKIP: continue
            yield t, k, d


def has_group(d):
    return any(isinstance(v, list) for n, v in d)


def expand(d, reps, suffix=""):
    """flat list of (attribute name, type, field name) with every group repeated reps times (fixed groups: their size)"""
    out = []
    for n, v in d:
        if isinstance(v, list):
            num, sub = v
            r = num if isinstance(num, int) else reps
            for i in range(r):
                out += expand(sub, reps, "%s_%02d" % (suffix, i + 1))
        else:
            out.append((n + suffix, v, n))
    return out


def attrs(m):
    """public attributes of a message, in order"""
    return [(k, v) for k, v in m.__dict__.items() if not k.startswith("_")]


# ------------------------------------------------------------------ field texts
def cat(parts):
    r = ""
    for x in parts:
        r = r + x
    return r


class F:
    """a field: text, type and the parts its meaning is computed from"""

    def __init__(self, att, text, kind, parts=None):
        self.att, self.text, self.kind, self.parts = att, text, kind, parts


def mkfield(S, nm, att, prof, mask=FIELD, width=0):
    """field text for type att under a profile: norm, empty, neg, text, long"""
    if prof == "empty":
        return F(att, "", "empty")
    if att in TEXT:
        n = {"CH": 1, "LAD": 1, "LND": 1, "QS": 2, "HX": 2, "ST": 3}[att]
        if prof == "text": n = 2
        if prof == "long": n = 6
        return F(att, S.str(nm, n + width, mask), "text")
    if prof == "text":       # any two characters
        return F(att, S.str(nm, 2, mask), "any")
    if att == "IN":
        d = S.digits(nm, (5 if prof == "long" else 2) + width)
        return F(att, ("-" if prof == "neg" else "") + d, "int", (prof == "neg", d))
    if att == "DE":
        a, b = S.digits(nm + ".i", (4 if prof == "long" else 2) + width), S.digits(nm + ".f", 3 if prof == "long" else 2)
        return F(att, cat(["-" if prof == "neg" else "", a, ".", b]), "dec", (prof == "neg", a, b))
    if att in ("LA", "LN"):
        nd = 2 if att == "LA" else 3
        a, mi, b = S.digits(nm + ".d", nd), S.digits(nm + ".m", 2), S.digits(nm + ".f", 7 if prof == "long" else (2 if prof == "neg" else 5))
        return F(att, cat([a, mi, ".", b]), "pos", (a, mi, b))
    if att == "TM":
        h, b = S.digits(nm + ".h", 6), S.digits(nm + ".f", 3 if prof == "long" else 2)
        if prof == "neg":
            return F(att, h, "time", (h, "0"))
        return F(att, cat([h, ".", b]), "time", (h, b))
    if att in ("DT", "DM"):
        d = S.digits(nm, 6)
        return F(att, d, "date", d)
    if att == "DTL":
        d = S.digits(nm, 8)
        return F(att, d, "date", d)
    raise AssertionError(att)


def is_leap(S, y):
    return S.all(y % 4 == 0, S.any(y % 100 != 0, y % 400 == 0))


def valid_date(S, y, m, d):
    last = S.ite(S.any(m == 4, m == 6, m == 9, m == 11), 30, S.ite(m == 2, S.ite(is_leap(S, y), 29, 28), 31))
    return S.all(m >= 1, m <= 12, d >= 1, d <= last)


def date_parts(S, att, t):
    if att == "DTL":
        return S.num(t[4:8]), S.num(t[2:4]), S.num(t[0:2])
    yy = S.num(t[4:6])
    y = S.ite(yy < 69, yy + 2000, yy + 1900)
    a, b = S.num(t[0:2]), S.num(t[2:4])
    return (y, b, a) if att == "DT" else (y, a, b)


def expect(S, f, val, label, pos_sign=True):
    """assert that val is what field f denotes"""
    import datetime
    if f.kind == "text":
        return S.check(S.eq(val, f.text), label)
    if f.kind == "empty":
        return S.check(S.eq(val, ""), label)
    if f.kind == "int":
        neg, d = f.parts
        n = S.num(d)
        return S.check(S.all(S.type(val) is int, val == (0 - n if neg else n)), label)
    if f.kind == "dec":
        neg, a, b = f.parts
        x = S.ratio(S.num(a + b), 10 ** len(b))
        x = 0 - x if neg else x
        return S.check(S.all(S.type(val) is float, S.near(val, x, 1e-9)), label)
    if f.kind == "pos":
        a, mi, b = f.parts
        x = S.ratio(S.num(a) * 60 * 10 ** len(b) + S.num(mi + b), 60 * 10 ** len(b))
        if S.type(val) is not float:
            return S.fail(label)
        return S.check(S.any(S.near(val, x, 1.0e-9), S.near(val, 0 - x, 1.0e-9)), label)
    if f.kind == "date":
        y, m, d = date_parts(S, f.att, f.parts)
        ok = valid_date(S, y, m, d)
        if f.att == "DTL": ok = S.all(ok, y >= 1)
        if S.type(val) is str:
            return S.check(S.all(S.no(ok), S.eq(val, "")), label)
        return S.check(S.all(S.type(val) is datetime.date, ok, val.year == y, val.month == m, val.day == d), label)
    if f.kind == "time":
        h, b = f.parts
        hh, mm, ss = S.num(h[0:2]), S.num(h[2:4]), S.num(h[4:6])
        ok = S.all(hh < 24, mm < 60, ss < 60)
        if S.type(val) is str:
            return S.check(S.all(S.no(ok), S.eq(val, "")), label)
        return S.check(S.all(S.type(val) is datetime.time, ok, val.hour == hh, val.minute == mm, val.second == ss,
                             val.microsecond == S.num(b) * 10 ** (6 - len(b))), label)
    raise AssertionError(f.kind)


def sentence(S, talker, msgid, fields, ck="00"):
    t = "$" + talker + msgid
    for x in fields:
        t = t + "," + x
    return t + "*" + ck + "\r\n"


def xor(chars):
    """XOR of the code points"""
    x = 0
    for c in chars:
        x = x ^ ord(c)
    return x


LIBERR = ("NMEAParseError", "NMEAMessageError", "NMEATypeError", "NMEAStreamError")


def firstfield(key):
    """fixed first field text of a definition, if its sentences need one"""
    f = family(key)
    if f: return f[1]
    if VKEYS.get(key) == "STMDRSENMSG": return key[len("STMDRSENMSG_"):]
    return None


def variant(key):
    return key in VARIANT or key in VKEYS


def count_names(d):
    return [v[0] for n, v in d if isinstance(v, list) and not isinstance(v[0], int) and v[0] != "None"]


def has_none(d):
    return any(isinstance(v, list) and v[0] == "None" for n, v in d)


ALPHA = charset(("A", "Z"), ("a", "z"))


FIXED = {"IN": ("7", "int"), "DE": ("1.5", "dec"), "TM": ("010203.00", "time"), "DT": ("010203", "date"), "DM": ("010203", "date"),
         "DTL": ("01022003", "date"), "LA": ("0102.3", "pos"), "LN": ("00102.3", "pos"), "HX": ("1F", "text")}
PARTS = {"IN": (False, "7"), "DE": (False, "1", "5"), "TM": ("010203", "00"), "DT": "010203", "DM": "010203", "DTL": "01022003",
         "LA": ("01", "02", "3"), "LN": ("001", "02", "3")}


def fixedfield(att, i=0):
    if att in FIXED: return F(att, FIXED[att][0], FIXED[att][1], PARTS.get(att))
    return F(att, "N" if att == "LAD" else "E" if att == "LND" else "a%d" % (i % 10), "text")


def build_fields(S, tab, key, flat, prof, reps, override=None):
    """F objects for the flat field list"""
    counts = count_names(TABS[tab][key])
    first = firstfield(key)
    out = []
    for i, (n, att, raw) in enumerate(flat):
        pr = (override or {}).get(i, prof)
        if i == 0 and first is not None:
            out.append(F("ST" if att not in ("IN",) else "IN", first, "text") if att != "IN" else F("IN", first, "int", (False, first)))
        elif (override is not None) and i not in override and att in ("TM", "DT", "DM", "DTL", "LA", "LN"):
            out.append(fixedfield(att))
        elif raw in counts:
            out.append(F("IN", "%d" % reps, "int", (False, "%d" % reps)))
        elif i == 0 and key == "ASHR" and pr in ("text",):
            out.append(mkfield(S, "f0", att, "norm"))
        elif i == 0 and key == "QTMSN" and pr != "empty":
            out.append(mkfield(S, "f0", att, pr, ALPHA))
        elif i == 0 and key == "QTMSN_ALT":
            out.append(mkfield(S, "f0", att, "norm"))
        elif key == "SSNSNC":
            out.append(mkfield(S, "f%d" % i, att, pr, FIELD & ~charset("[]")))
        else:
            out.append(mkfield(S, "f%d" % i, att, pr))
    return out


# ------------------------------------------------------------------ streams
INITIALS = sorted({ord(t[0]) for t in TALKERS})


class Stub:
    """a stream with read(n) and readline() only"""

    def __init__(self, data):
        self.data, self.pos = data, 0

    def read(self, n):
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self):
        i = self.data.find(b"\n", self.pos)
        return self.read(len(self.data) - self.pos if i < 0 else i + 1 - self.pos)


def frames(S, data):
    """independent framing: [(start, end, complete)], and the positions of '$' followed by something that starts no sentence"""
    out, odd = [], []
    i, n = 0, len(data)
    while i < n:
        if not S.fork(data[i] == 36):
            i += 1
        elif i + 1 >= n or S.fork(data[i + 1] == 36):
            i += 1
        elif S.fork(S.any([data[i + 1] == c for c in INITIALS])):
            j = i + 2
            while j < n and not S.fork(data[j] == 10):
                j += 1
            out.append((i, min(j + 1, n), j < n))
            i = j + 1
        else:
            odd.append(i)
            i += 1
    return out, odd


def same_msg(S, a, b):
    if a is None or b is None: return a is None and b is None
    return S.all(S.eq(a.serialize(), b.serialize()), S.eq(a.identity, b.identity), a.msgmode == b.msgmode, S.eq(attrs(a), attrs(b)))


def ckd(S, content):
    """$content*hh CR LF with the right checksum"""
    return cat(["$", content, "*", S.mod("nmeahelpers").calc_checksum(content), "\r\n"])


# ------------------------------------------------------------------ sockets
class Peer:
    """what the other end sends: recv() delivers the next piece; sizes are chosen by `cut`, gaps (timeout, close...) by `gap`"""

    def __init__(self, data, cut, gap=None):
        self.data, self.cut, self.gap = data, cut, gap
        self.sent = 0           # bytes delivered by recv
        self.gaps = 0
        self.asked = []
        self.out = []

    def recv(self, size, *flags):
        self.asked.append(size)
        n = len(self.data) - self.sent
        g = self.gap(n) if self.gap is not None else None
        if g is None and n <= 0: g = "close"
        if g is not None:
            self.gaps += 1
            if g == "timeout": raise TimeoutError("timed out")
            if g == "reset": raise ConnectionResetError(104, "reset")
            if g == "oserror": raise OSError("gone")
            return b""
        k = self.cut(min(size, n))
        r = self.data[self.sent:self.sent + k]
        self.sent += k
        return r

    def send(self, data, *a, **k):
        self.out.append(data)
        return len(data)


# ------------------------------------------------------------------ time systems (independent of the library)
# instants at which a leap second had been inserted (00:00:00 UTC of the day): IERS Bulletin C
LEAPDAYS = [(1972, 7, 1), (1973, 1, 1), (1974, 1, 1), (1975, 1, 1), (1976, 1, 1), (1977, 1, 1), (1978, 1, 1), (1979, 1, 1), (1980, 1, 1),
            (1981, 7, 1), (1982, 7, 1), (1983, 7, 1), (1985, 7, 1), (1988, 1, 1), (1990, 1, 1), (1991, 1, 1), (1992, 7, 1), (1993, 7, 1),
            (1994, 7, 1), (1996, 1, 1), (1997, 7, 1), (1999, 1, 1), (2006, 1, 1), (2009, 1, 1), (2012, 7, 1), (2015, 7, 1), (2017, 1, 1)]
EPOCHS = {"G": (1980, 1, 6), "J": (1980, 1, 6), "E": (1999, 8, 22), "I": (1999, 8, 22), "C": (2006, 1, 1)}
ROLL = {"G": 1024, "J": 1024, "E": 4096, "I": 1024, "C": 8192}


def days_from_civil(y, m, d):
    """days since 1970-01-01"""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


LEAPSEC = [days_from_civil(*x) * 86400 for x in LEAPDAYS]      # unix time of the insertions
START72 = days_from_civil(1972, 1, 1) * 86400


def leaps(S, sec, gnss):
    """leap seconds inserted between the reference epoch of the system and unix second sec (no forks)"""
    ref = (2006, 1, 1) if gnss == "C" else (1980, 1, 6)
    base = days_from_civil(*ref) * 86400
    n = sum(1 for x in LEAPSEC if x <= base)
    v = -n
    for x in LEAPSEC: v = v + S.ite(sec >= x, 1, 0)
    return S.ite(sec < START72, 0, v)

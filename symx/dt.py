"""Symbolic date, time, datetime, timedelta."""
import datetime as D
import re
import z3
from .core import cur, Unsupported
from .values import (Sym, SInt, SFloat, SBool, mkbool, mkint, ti, tb, and_, or_, not_, is_sym, concretise, float_div, items,
                     DigitCh, as_int, f_round)
from .strs import mkstr, SStr

US_DAY = 86400 * 10 ** 6
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


class SDT(Sym):
    __slots__ = ()

    def __str__(self): return str(concretise(self))
    def __repr__(self): return "<%s>" % type(self).__name__
    def __format__(self, s): return format(concretise(self), s)

    def fmt(self, spec):
        if spec == "":
            return self.iso(" ")
        return self.strftime(spec)


def leap_t(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def ordinal_t(y, m, d):
    """proleptic Gregorian ordinal of Int terms"""
    p = y - 1
    base = p * 365 + p / 4 - p / 100 + p / 400
    cum = z3.IntVal(CUM[11])
    for k in range(10, -1, -1):
        cum = z3.If(m == k + 1, CUM[k], cum)
    return base + cum + z3.If(z3.And(m > 2, leap_t(y)), 1, 0) + d


def fields_of_ordinal(o):
    """fresh y, m, d with ordinal_t = o (o in range)"""
    e = cur()
    key = ("civil", o.get_id())
    hit = e.cache.get(key)
    if hit: return hit[0]
    y, m, d = (z3.Int(e.newname(n)) for n in ("y", "mo", "da"))
    e.define(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= dim_t(y, m), ordinal_t(y, m, d) == o))
    e.cache[key] = ((y, m, d), o)
    return y, m, d


def dim_t(y, m):
    return z3.If(m == 2, z3.If(leap_t(y), 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))


def pad(x, w):
    """zero padded decimal digits (items) of int/SInt known to fit in w digits"""
    from . import text
    if not is_sym(x):
        return [ord(c) for c in "%0*d" % (w, x)]
    p = getattr(x, "parts", None) if hasattr(x, "parts") else None
    if p and len(p) <= w:
        return [48] * (w - len(p)) + list(p)
    return text.digits_of(x.t, w)


def strftime(fmt, get):
    fmt = concretise(fmt, "strftime format") if is_sym(fmt) else fmt
    out = []
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            out.append(ord(c))
            i += 1
            continue
        i += 1
        if i >= len(fmt):
            out.append(37)
            break
        out += get(fmt[i])
        i += 1
    return mkstr(out)


class SDate(SDT):
    __slots__ = ("year", "month", "day")
    _pt = D.date

    def __init__(self, y, m, d):
        self.year, self.month, self.day = y, m, d

    __hash__ = Sym.__hash__

    def conc(self, m):
        from .values import conc
        return D.date(conc(self.year, m), conc(self.month, m), conc(self.day, m))

    def eq_concrete(self, v):
        return tb(and_(self.year == v.year, self.month == v.month, self.day == v.day))

    def ord_t(self):
        return ordinal_t(ti(self.year), ti(self.month), ti(self.day))

    def toordinal(self): return mkint(self.ord_t())
    def weekday(self): return mkint((self.ord_t() + 6) % 7)
    def isoweekday(self): return mkint((self.ord_t() + 6) % 7 + 1)

    def __eq__(self, o):
        if isinstance(o, (SDateTime, D.datetime)): return False
        if isinstance(o, (SDate, D.date)):
            return and_(self.year == o.year, self.month == o.month, self.day == o.day)
        return False

    def __ne__(self, o): return not_(self == o)

    def _ot(self, o):
        if isinstance(o, (SDateTime, D.datetime)): return None
        if isinstance(o, SDate): return o.ord_t()
        if isinstance(o, D.date): return z3.IntVal(o.toordinal())
        return None

    def __lt__(self, o):
        t = self._ot(o)
        return NotImplemented if t is None else mkbool(self.ord_t() < t)
    def __le__(self, o):
        t = self._ot(o)
        return NotImplemented if t is None else mkbool(self.ord_t() <= t)
    def __gt__(self, o):
        t = self._ot(o)
        return NotImplemented if t is None else mkbool(self.ord_t() > t)
    def __ge__(self, o):
        t = self._ot(o)
        return NotImplemented if t is None else mkbool(self.ord_t() >= t)

    def __sub__(self, o):
        t = self._ot(o)
        if t is not None: return STimedelta((self.ord_t() - t) * US_DAY)
        if isinstance(o, (STimedelta, D.timedelta)): return self + (-o)
        return NotImplemented
    def __rsub__(self, o):
        t = self._ot(o)
        return NotImplemented if t is None else STimedelta((t - self.ord_t()) * US_DAY)
    def __add__(self, o):
        if isinstance(o, (STimedelta, D.timedelta)):
            o = self.ord_t() + us_of(o) / US_DAY
            if not bool(mkbool(z3.And(o >= 1, o <= 3652059))): raise OverflowError("date value out of range")
            return SDate(*[SInt(x) for x in fields_of_ordinal(z3.simplify(o))])
        return NotImplemented
    __radd__ = __add__

    def replace(self, year=None, month=None, day=None):
        return mkdate(self.year if year is None else year, self.month if month is None else month, self.day if day is None else day)

    def isoformat(self):
        return mkstr(pad(self.year, 4) + [45] + pad(self.month, 2) + [45] + pad(self.day, 2))
    def iso(self, sep): return self.isoformat()
    def strftime(self, fmt):
        return strftime(fmt, lambda c: directive(c, self.year, self.month, self.day, 0, 0, 0, 0, None, self.ord_t))
    def timetuple(self): return concretise(self).timetuple()
    def ctime(self): return concretise(self).ctime()


def directive(c, y, mo, d, h, mi, s, us, tz, ordt):
    if c == "d": return pad(d, 2)
    if c == "m": return pad(mo, 2)
    if c == "Y":
        # glibc %Y does not pad; CPython 3.12 passes the year through
        if is_sym(y):
            if bool(y >= 1000): return pad(y, 4)
            raise Unsupported("strftime %Y before year 1000")
        return [ord(q) for q in str(y)]
    if c == "y": return pad(y % 100 if not is_sym(y) else y % 100, 2)
    if c == "H": return pad(h, 2)
    if c == "M": return pad(mi, 2)
    if c == "S": return pad(s, 2)
    if c == "f": return pad(us, 6)
    if c == "I": return pad((h + 11) % 12 + 1, 2)
    if c == "p": return [ord(q) for q in ("AM" if bool(h < 12) else "PM")]
    if c == "%": return [37]
    if c == "F": return directive("Y", y, mo, d, h, mi, s, us, tz, ordt) + [45] + pad(mo, 2) + [45] + pad(d, 2)
    if c == "T": return pad(h, 2) + [58] + pad(mi, 2) + [58] + pad(s, 2)
    if c == "D": return pad(mo, 2) + [47] + pad(d, 2) + [47] + pad(y % 100, 2)
    if c == "R": return pad(h, 2) + [58] + pad(mi, 2)
    if c == "n": return [10]
    if c == "t": return [9]
    if c == "C": return pad(y // 100, 2)
    if c == "e":
        if bool(d < 10): return [32] + pad(d, 1)
        return pad(d, 2)
    if c == "j": return pad(mkint(ordt() - ordinal_t(ti(y), z3.IntVal(1), z3.IntVal(1)) + 1), 3)
    if c == "w": return pad(mkint(ordt() % 7), 1)
    if c == "u": return pad(mkint((ordt() + 6) % 7 + 1), 1)
    if c in ("z", "Z"):
        if tz is None: return []
        if tz is D.timezone.utc: return [ord(q) for q in ("+0000" if c == "z" else "UTC")]
    # names (%a %b ...): concretise the fields involved
    v = D.datetime(*[concretise(x, "strftime %%%s" % c) for x in (y, mo, d, h, mi, s, us)], tzinfo=tz)
    return [ord(q) for q in v.strftime("%" + c)]


class STime(SDT):
    __slots__ = ("hour", "minute", "second", "microsecond", "tzinfo")
    _pt = D.time

    def __init__(self, h, m, s, us, tz=None):
        self.hour, self.minute, self.second, self.microsecond, self.tzinfo = h, m, s, us, tz

    __hash__ = Sym.__hash__
    fold = 0

    def conc(self, m):
        from .values import conc
        return D.time(*[conc(x, m) for x in (self.hour, self.minute, self.second, self.microsecond)], tzinfo=self.tzinfo)

    def eq_concrete(self, v):
        return tb(and_(self.hour == v.hour, self.minute == v.minute, self.second == v.second, self.microsecond == v.microsecond))

    def us(self):
        return ((ti(self.hour) * 60 + ti(self.minute)) * 60 + ti(self.second)) * 1000000 + ti(self.microsecond)

    def __eq__(self, o):
        if isinstance(o, (STime, D.time)):
            if (self.tzinfo is None) != (o.tzinfo is None): return False
            return and_(self.hour == o.hour, self.minute == o.minute, self.second == o.second, self.microsecond == o.microsecond)
        return False
    def __ne__(self, o): return not_(self == o)

    def _us(self, o):
        if isinstance(o, STime): return o.us()
        if isinstance(o, D.time): return z3.IntVal(((o.hour * 60 + o.minute) * 60 + o.second) * 1000000 + o.microsecond)
        return None
    def __lt__(self, o):
        t = self._us(o)
        return NotImplemented if t is None else mkbool(self.us() < t)
    def __le__(self, o):
        t = self._us(o)
        return NotImplemented if t is None else mkbool(self.us() <= t)
    def __gt__(self, o):
        t = self._us(o)
        return NotImplemented if t is None else mkbool(self.us() > t)
    def __ge__(self, o):
        t = self._us(o)
        return NotImplemented if t is None else mkbool(self.us() >= t)

    def replace(self, hour=None, minute=None, second=None, microsecond=None, tzinfo=True):
        return mktime(self.hour if hour is None else hour, self.minute if minute is None else minute,
                      self.second if second is None else second, self.microsecond if microsecond is None else microsecond,
                      self.tzinfo if tzinfo is True else tzinfo)

    def isoformat(self, timespec="auto"):
        hms = pad(self.hour, 2) + [58] + pad(self.minute, 2) + [58] + pad(self.second, 2)
        if timespec == "seconds": pass
        elif timespec == "milliseconds": hms += [46] + pad(self.microsecond // 1000, 3)
        elif timespec == "microseconds" or bool(self.microsecond != 0): hms += [46] + pad(self.microsecond, 6)
        if self.tzinfo is not None: hms += [ord(c) for c in "+00:00"]
        return mkstr(hms)
    def iso(self, sep): return self.isoformat()
    def strftime(self, fmt):
        return strftime(fmt, lambda c: directive(c, 1900, 1, 1, self.hour, self.minute, self.second, self.microsecond, self.tzinfo, None))
    def utcoffset(self): return None if self.tzinfo is None else self.tzinfo.utcoffset(None)


class STimedelta(SDT):
    """integer microseconds"""
    __slots__ = ("t",)
    _pt = D.timedelta

    def __init__(self, t):
        self.t = t
    __hash__ = Sym.__hash__

    def conc(self, m): return D.timedelta(microseconds=m.eval(self.t, model_completion=True).as_long())
    def eq_concrete(self, v): return self.t == us_int(v)
    @property
    def days(self): return mkint(z3.simplify(self.t / US_DAY))
    @property
    def seconds(self): return mkint(z3.simplify((self.t % US_DAY) / 1000000))
    @property
    def microseconds(self): return mkint(z3.simplify(self.t % 1000000))
    def total_seconds(self):
        e = cur()
        t = z3.simplify(self.t)
        if z3.is_int_value(t): return t.as_long() / 10 ** 6
        from .values import from_decimal
        return from_decimal(t, 6)
    def __neg__(self): return STimedelta(-self.t)
    def __pos__(self): return self
    def __abs__(self): return STimedelta(z3.If(self.t >= 0, self.t, -self.t))
    def __add__(self, o):
        if isinstance(o, (STimedelta, D.timedelta)): return STimedelta(self.t + us_of(o))
        return NotImplemented
    def __radd__(self, o):
        if isinstance(o, D.datetime): return SDateTime(u=z3.IntVal(abs_us(o)), tz=o.tzinfo)._shift(self.t)
        if isinstance(o, D.date): return SDate(o.year, o.month, o.day) + self
        return self + o
    def __sub__(self, o):
        if isinstance(o, (STimedelta, D.timedelta)): return STimedelta(self.t - us_of(o))
        return NotImplemented
    def __rsub__(self, o):
        if isinstance(o, (STimedelta, D.timedelta)): return STimedelta(us_of(o) - self.t)
        if isinstance(o, D.date): return (-self).__radd__(o)
        return NotImplemented
    def __mul__(self, o):
        if isinstance(o, (int, SInt)): return STimedelta(self.t * ti(o))
        return concretise(self) * concretise(o)
    __rmul__ = __mul__
    def __floordiv__(self, o):
        if isinstance(o, (STimedelta, D.timedelta)): return SInt(self.t) // (SInt(us_of(o)) if is_sym(o) else us_int(o))
        if isinstance(o, (int, SInt)): return STimedelta(ti(SInt(self.t) // o))
        return NotImplemented
    def __rfloordiv__(self, o): return o // concretise(self)
    def __mod__(self, o):
        if isinstance(o, (STimedelta, D.timedelta)): return STimedelta(ti(SInt(self.t) % (SInt(us_of(o)) if is_sym(o) else us_int(o))))
        return NotImplemented
    def __divmod__(self, o): return self // o, self % o
    def __truediv__(self, o):
        if isinstance(o, (STimedelta, D.timedelta)): return float_div(SInt(self.t), SInt(us_of(o)) if is_sym(o) else us_int(o))
        if isinstance(o, int):
            return STimedelta(ti(div_half_even(self.t, o)))
        return concretise(self) / concretise(o)
    def _c(self, o, op):
        if not isinstance(o, (STimedelta, D.timedelta)): return NotImplemented
        from .values import _rel
        return mkbool(_rel(op, self.t, us_of(o)))
    def __eq__(self, o):
        r = self._c(o, "==")
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._c(o, "!=")
        return True if r is NotImplemented else r
    def __lt__(self, o): return self._c(o, "<")
    def __le__(self, o): return self._c(o, "<=")
    def __gt__(self, o): return self._c(o, ">")
    def __ge__(self, o): return self._c(o, ">=")
    def __bool__(self): return bool(mkbool(self.t != 0))
    def iso(self, sep): return str(concretise(self))


def div_half_even(t, o):
    q, r = t / o, t % o
    return mkint(z3.If(2 * r < o, q, z3.If(2 * r > o, q + 1, z3.If(q % 2 == 0, q, q + 1))))


def us_int(v):
    return (v.days * 86400 + v.seconds) * 10 ** 6 + v.microseconds


def us_of(v):
    return v.t if isinstance(v, STimedelta) else z3.IntVal(us_int(v))


def abs_us(v):
    """concrete datetime -> microseconds since 0001-01-01 (own clock reading)"""
    return ((v.toordinal() - 1) * 86400 + v.hour * 3600 + v.minute * 60 + v.second) * 10 ** 6 + v.microsecond


MAXUS = 3652059 * US_DAY


class SDateTime(SDT):
    """fields and/or microseconds since 0001-01-01T00:00; tz None or a fixed datetime.timezone"""
    __slots__ = ("_f", "_u", "tzinfo")
    _pt = D.datetime
    fold = 0

    def __init__(self, f=None, u=None, tz=None):
        self._f, self._u, self.tzinfo = f, u, tz
    __hash__ = Sym.__hash__

    def fields(self):
        if self._f is None:
            o = self._u / US_DAY + 1
            y, m, d = fields_of_ordinal(z3.simplify(o))
            r = self._u % US_DAY
            self._f = (SInt(y), SInt(m), SInt(d), mkint(z3.simplify(r / 3600000000)), mkint(z3.simplify(r / 60000000 % 60)),
                       mkint(z3.simplify(r / 1000000 % 60)), mkint(z3.simplify(r % 1000000)))
        return self._f

    def u(self):
        if self._u is None:
            y, mo, d, h, mi, s, us = [ti(x) for x in self._f]
            self._u = (((ordinal_t(y, mo, d) - 1) * 24 + h) * 60 + mi) * 60000000 + s * 1000000 + us
        return self._u

    def conc(self, m):
        from .values import conc
        if self._f is not None:
            return D.datetime(*[conc(x, m) for x in self._f], tzinfo=self.tzinfo)
        v = m.eval(self._u, model_completion=True).as_long()
        return (D.datetime(1, 1, 1) + D.timedelta(microseconds=v)).replace(tzinfo=self.tzinfo)

    def eq_concrete(self, v):
        return self.u() == abs_us(v)

    year = property(lambda s: s.fields()[0])
    month = property(lambda s: s.fields()[1])
    day = property(lambda s: s.fields()[2])
    hour = property(lambda s: s.fields()[3])
    minute = property(lambda s: s.fields()[4])
    second = property(lambda s: s.fields()[5])
    microsecond = property(lambda s: s.fields()[6])

    def date(self): return SDate(*self.fields()[:3])
    def time(self): return STime(*self.fields()[3:])
    def timetz(self): return STime(*self.fields()[3:], tz=self.tzinfo)
    def toordinal(self): return mkint(self.u() / US_DAY + 1)
    def weekday(self): return mkint((self.u() / US_DAY) % 7)
    def isoweekday(self): return mkint((self.u() / US_DAY) % 7 + 1)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, fold=None):
        tz = self.tzinfo if tzinfo is True else tzinfo
        args = (year, month, day, hour, minute, second, microsecond)
        if all(a is None for a in args):
            return SDateTime(self._f, self._u, tz)
        f = [b if a is None else a for a, b in zip(args, self.fields())]
        return mkdatetime(*f, tzinfo=tz)

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(None)

    def astimezone(self, tz=None):
        if tz is None: raise Unsupported("astimezone to local time")
        if self.tzinfo is None: raise Unsupported("astimezone of naive datetime")
        d = us_int(tz.utcoffset(None)) - us_int(self.utcoffset())
        if d == 0: return SDateTime(self._f, self._u, tz)
        return SDateTime(u=self.u() + d, tz=tz)

    def timestamp(self):
        if self.tzinfo is None: raise Unsupported("timestamp of naive datetime")
        return (self - D.datetime(1970, 1, 1, tzinfo=D.timezone.utc)).total_seconds()

    def _other(self, o):
        """comparable microseconds of another datetime, or None / TypeError-marker"""
        if isinstance(o, SDateTime):
            t, tz = o.u(), o.tzinfo
        elif isinstance(o, D.datetime):
            t, tz = z3.IntVal(abs_us(o)), o.tzinfo
        else:
            return None
        if (tz is None) != (self.tzinfo is None):
            return "naive"
        if tz is not None:
            off = us_int(tz.utcoffset(None)) - us_int(self.utcoffset())
            t = t - off
        return t

    def __sub__(self, o):
        if isinstance(o, (STimedelta, D.timedelta)):
            return self._shift(-us_of(o))
        t = self._other(o)
        if t is None: return NotImplemented
        if isinstance(t, str): raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        return STimedelta(z3.simplify(self.u() - t))

    def __rsub__(self, o):
        t = self._other(o)
        if t is None: return NotImplemented
        if isinstance(t, str): raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        return STimedelta(z3.simplify(t - self.u()))

    def _shift(self, dt_):
        n = z3.simplify(self.u() + dt_)
        if not bool(mkbool(z3.And(n >= 0, n < MAXUS))):
            raise OverflowError("date value out of range")
        return SDateTime(u=n, tz=self.tzinfo)

    def __add__(self, o):
        if isinstance(o, (STimedelta, D.timedelta)):
            return self._shift(us_of(o))
        return NotImplemented
    __radd__ = __add__

    def _cmp(self, o, op):
        from .values import _rel
        t = self._other(o)
        if t is None: return NotImplemented
        if isinstance(t, str):
            if op in ("==", "!="): return op == "!="
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return mkbool(_rel(op, self.u(), t))

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r
    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def isoformat(self, sep="T", timespec="auto"):
        t = self.timetz().isoformat(timespec)
        return self.date().isoformat() + sep + t
    def iso(self, sep): return self.isoformat(sep)
    def strftime(self, fmt):
        f = self.fields()
        return strftime(fmt, lambda c: directive(c, *f, self.tzinfo, lambda: self.u() / US_DAY + 1))
    def timetuple(self): return concretise(self).timetuple()


# ------------------------------------------------------------ constructors
def _int(x):
    if isinstance(x, SBool): return x._i()
    if isinstance(x, (SInt, int)): return x
    raise TypeError("an integer is required (got type %s)" % getattr(x, "_pt", type(x)).__name__)


def _rng(x, lo, hi, msg):
    ok = and_(x >= lo, x <= hi)
    if not bool(ok):
        raise ValueError(msg)


def mkdate(year, month, day):
    y, m, d = map(_int, (year, month, day))
    if not any(map(is_sym, (y, m, d))): return D.date(y, m, d)
    _rng(y, 1, 9999, "year out of range")
    _rng(m, 1, 12, "month must be in 1..12")
    if not bool(mkbool(z3.And(ti(d) >= 1, ti(d) <= dim_t(ti(y), ti(m))))):
        raise ValueError("day is out of range for month")
    return SDate(y, m, d)


def mktime(hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
    h, m, s, u = map(_int, (hour, minute, second, microsecond))
    if not any(map(is_sym, (h, m, s, u))): return D.time(h, m, s, u, tzinfo)
    _rng(h, 0, 23, "hour must be in 0..23")
    _rng(m, 0, 59, "minute must be in 0..59")
    _rng(s, 0, 59, "second must be in 0..59")
    _rng(u, 0, 999999, "microsecond must be in 0..999999")
    return STime(h, m, s, u, tzinfo)


def mkdatetime(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
    d = mkdate(year, month, day)
    t = mktime(hour, minute, second, microsecond)
    return SDateTime(f=(d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond), tz=tzinfo)


def combine(d, t, tzinfo=True):
    if isinstance(d, SDateTime): d = d.date()
    return SDateTime(f=(d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond),
                     tz=t.tzinfo if tzinfo is True else tzinfo)


def mktimedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    tot = z3.IntVal(0)
    for v, f in ((days, US_DAY), (seconds, 10 ** 6), (microseconds, 1), (milliseconds, 1000), (minutes, 60 * 10 ** 6),
                 (hours, 3600 * 10 ** 6), (weeks, 7 * US_DAY)):
        if isinstance(v, float):
            if not v.is_integer(): raise Unsupported("fractional timedelta")
            v = int(v)
        if isinstance(v, SFloat):
            # microseconds are rounded: nearest integer of the product (half-even ties left open)
            k = f_round(SFloat(v.r * f), 0)
            from .values import nearest
            tot = tot + nearest(SFloat(z3.simplify(v.r * f)), 0)
            continue
        tot = tot + ti(_int(v)) * f
    t = z3.simplify(tot)
    lim = 999999999 * US_DAY
    if z3.is_int_value(t): return D.timedelta(microseconds=t.as_long())
    if not bool(mkbool(z3.And(t >= -lim, t < lim + US_DAY))):
        raise OverflowError("days out of range")
    return STimedelta(t)


# ---------------------------------------------------------------- strptime
_pats = {}


def strptime(s, fmt):
    from . import rx, text
    import _strptime
    if is_sym(fmt): fmt = concretise(fmt, "strptime format")
    if not is_sym(s): return D.datetime.strptime(s, fmt)
    if not isinstance(s, SStr):
        raise TypeError("strptime() argument 1 must be str, not %s" % s._pt.__name__)
    dirs = re.findall(r"%(.)", fmt)
    if any(c not in "dmyYHIMSfjp%" for c in dirs) or "I" in dirs or "p" in dirs or "j" in dirs:
        return D.datetime.strptime(concretise(s, "strptime(%s)" % fmt), fmt)
    key = fmt
    if key not in _pats:
        _pats[key] = _strptime.TimeRE().compile(fmt)
    m = rx.do("match", _pats[key], 0, (s,), {})
    if m is None:
        raise ValueError("time data does not match format %r" % fmt)
    if m.end() != len(s):
        raise ValueError("unconverted data remains")
    g = m.groupdict()

    def num(k):
        x = g[k]
        return text.parse_int(x) if is_sym(x) else int(x)
    y, mo, d, h, mi, se, us = 1900, 1, 1, 0, 0, 0, 0
    if "Y" in g: y = num("Y")
    elif "y" in g:
        y = num("y")
        if is_sym(y):
            y = mkint(z3.If(y.t <= 68, y.t + 2000, y.t + 1900))
        else:
            y = y + 2000 if y <= 68 else y + 1900
    if "m" in g: mo = num("m")
    if "d" in g: d = num("d")
    if "H" in g: h = num("H")
    if "M" in g: mi = num("M")
    if "S" in g: se = num("S")
    if "f" in g:
        f = g["f"] + "0" * (6 - len(g["f"]))
        us = text.parse_int(f) if is_sym(f) else int(f)
    # %S accepts 60/61; datetime() then rejects them
    return mkdatetime(y, mo, d, h, mi, se, us)

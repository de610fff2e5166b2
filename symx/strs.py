"""Symbolic str / bytes / bytearray with concrete length."""
import z3
from .core import cur, Unsupported, PathAbort
from .values import (Sym, SSeq, SInt, SBool, DigitCh, mkbool, tb, and_, or_, not_, ch_in, ch_eq, ch_bv, seq_eq, items,
                     mask_of, FULL, DIGMASK, concretise, is_sym, concretise_ch, ch_conc, has_sym)


def _m(pred):
    m = 0
    for c in range(256):
        if pred(c):
            m |= 1 << c
    return m


STR_WS = _m(lambda c: chr(c).isspace())
BYTES_WS = mask_of(b" \t\n\r\x0b\x0c")
M_LOWER = _m(lambda c: 97 <= c <= 122)
M_UPPER = _m(lambda c: 65 <= c <= 90)
M_ASCII = _m(lambda c: c < 128)
STR_CLASS = {n: (_m(lambda c, n=n: getattr(chr(c), n)()), (lambda c, n=n: getattr(chr(c), n)()))
             for n in ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isspace", "isprintable", "isascii")}
BYTES_CLASS = {n: (_m(lambda c, n=n: getattr(bytes([c]), n)()), None)
               for n in ("isdigit", "isalpha", "isalnum", "isspace", "isascii")}


def mkstr(cs):
    if all(isinstance(c, int) for c in cs):
        return "".join(map(chr, cs))
    return SStr(cs)


def mkbytes(cs):
    if all(isinstance(c, int) for c in cs):
        return bytes(cs)
    return SBytes(cs)


def idx(i):
    if i is None or isinstance(i, int):
        return i
    if is_sym(i):
        return concretise(i)
    return i.__index__()


class _SeqOps(SSeq):
    __slots__ = ()
    _types = ()

    def __init__(self, cs):
        self.cs = list(cs)

    # -- basic
    def _mk(self, cs):
        raise NotImplementedError

    def _same(self, o):
        return isinstance(o, self._types)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __eq__(self, o):
        if not self._same(o):
            return False
        return seq_eq(self, o)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    __hash__ = Sym.__hash__

    def _lt(self, o, strict):
        if not self._same(o):
            return NotImplemented
        a, b = items(self), items(o)
        n = min(len(a), len(b))
        t = z3.BoolVal(len(a) < len(b) if strict else len(a) <= len(b))
        for p, q in reversed(list(zip(a[:n], b[:n]))):
            x, y = ch_bv(p, 8), ch_bv(q, 8)
            from .values import widen
            x, y = widen(x, y)
            t = z3.If(x == y, t, z3.ULT(x, y))
        return mkbool(z3.simplify(t))

    def __lt__(self, o): return self._lt(o, True)
    def __le__(self, o): return self._lt(o, False)
    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else not_(r)
    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else not_(r)

    def __add__(self, o):
        if not self._same(o):
            return NotImplemented if not isinstance(o, Sym) else self._typeerr(o)
        return self._mk(self.cs + items(o))

    def __radd__(self, o):
        if not self._same(o):
            return NotImplemented
        if isinstance(o, bytearray):
            return SByteArray(self._mk(items(o) + self.cs))
        return self._mk(items(o) + self.cs)

    def _typeerr(self, o):
        raise TypeError("can't concat %s to %s" % (getattr(o, "_pt", type(o)).__name__, self._pt.__name__))

    def __mul__(self, n):
        return self._mk(self.cs * idx(n))
    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._mk(self.cs[slice(idx(i.start), idx(i.stop), idx(i.step))])
        i = idx(i)
        if not -len(self.cs) <= i < len(self.cs):
            raise IndexError("%s index out of range" % ("string" if self._pt is str else "index"))
        return self._one(self.cs[i])

    def __iter__(self):
        for c in list(self.cs):
            yield self._one(c)

    def __reversed__(self):
        for c in reversed(list(self.cs)):
            yield self._one(c)

    def __contains__(self, x):
        return bool(self._contains(x))

    def _coerce(self, x, what="argument"):
        """str-like argument -> item list"""
        if self._same(x):
            return items(x)
        if self._pt is not str and isinstance(x, (int, SInt)):
            return [byte_item(x)]
        raise TypeError("%s must be %s, not %s" % (what, self._pt.__name__, getattr(x, "_pt", type(x)).__name__))

    def _contains(self, x):
        p = self._coerce(x)
        n = len(self.cs)
        if not p:
            return True
        return or_(*[self._at(p, i) for i in range(0, n - len(p) + 1)])

    def _at(self, p, i):
        """p occurs at i"""
        ts = []
        for a, b in zip(self.cs[i:i + len(p)], p):
            r = ch_eq(a, b)
            if r is False:
                return False
            ts.append(r)
        if len(self.cs) - i < len(p):
            return False
        return and_(*ts)

    def _bounds(self, a, b):
        n = len(self.cs)
        s, e, _ = slice(idx(a), idx(b)).indices(n)
        return s, e

    def find(self, x, a=None, b=None):
        p = self._coerce(x)
        s, e = self._bounds(a, b)
        for i in range(s, e - len(p) + 1):
            if bool(self._at(p, i)):
                return i
        return -1

    def rfind(self, x, a=None, b=None):
        p = self._coerce(x)
        s, e = self._bounds(a, b)
        for i in range(e - len(p), s - 1, -1):
            if bool(self._at(p, i)):
                return i
        return -1

    def index(self, x, a=None, b=None):
        i = self.find(x, a, b)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, x, a=None, b=None):
        i = self.rfind(x, a, b)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, x, a=None, b=None):
        p = self._coerce(x)
        s, e = self._bounds(a, b)
        if not p:
            return e - s + 1
        if len(p) == 1:
            tot = 0
            t = None
            for i in range(s, e):
                r = self._at(p, i)
                if r is True:
                    tot += 1
                elif r is not False:
                    u = z3.If(r.t, 1, 0)
                    t = u if t is None else t + u
            return tot if t is None else SInt(t + tot)
        n = 0
        i = s
        while i <= e - len(p):
            if bool(self._at(p, i)):
                n += 1
                i += len(p)
            else:
                i += 1
        return n

    def startswith(self, x, a=None, b=None):
        if isinstance(x, tuple):
            return or_(*[self.startswith(y, a, b) for y in x])
        p = self._coerce(x)
        s, e = self._bounds(a, b)
        if e - s < len(p):
            return False
        return self._at(p, s)

    def endswith(self, x, a=None, b=None):
        if isinstance(x, tuple):
            return or_(*[self.endswith(y, a, b) for y in x])
        p = self._coerce(x)
        s, e = self._bounds(a, b)
        if e - s < len(p):
            return False
        return self._at(p, e - len(p))

    def split(self, sep=None, maxsplit=-1):
        maxsplit = idx(maxsplit)
        if sep is None:
            return self._wsplit(maxsplit)
        p = self._coerce(sep)
        if not p:
            raise ValueError("empty separator")
        out = []
        start = i = 0
        while i <= len(self.cs) - len(p):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if bool(self._at(p, i)):
                out.append(self._mk(self.cs[start:i]))
                i += len(p)
                start = i
            else:
                i += 1
        out.append(self._mk(self.cs[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = idx(maxsplit)
        if sep is None:
            if maxsplit < 0:
                return self._wsplit(-1)
            r = self._mk(self.cs[::-1])
            if not is_sym(r):
                return self._conc_call("rsplit", sep, maxsplit)
            return [self._rev(x) for x in r._wsplit(maxsplit)][::-1]
        p = self._coerce(sep)
        if not p:
            raise ValueError("empty separator")
        out = []
        end = i = len(self.cs)
        while i >= len(p):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if bool(self._at(p, i - len(p))):
                out.append(self._mk(self.cs[i:end]))
                i -= len(p)
                end = i
            else:
                i -= 1
        out.append(self._mk(self.cs[:end]))
        return out[::-1]

    def _rev(self, x):
        return self._mk(items(x)[::-1])

    def _wsplit(self, maxsplit):
        out = []
        i, n = 0, len(self.cs)
        while True:
            while i < n and bool(ch_in(self.cs[i], self._ws, self._wswide)):
                i += 1
            if i >= n:
                return out
            if maxsplit >= 0 and len(out) >= maxsplit:
                j = n
                while j > i and bool(ch_in(self.cs[j - 1], self._ws, self._wswide)):
                    j -= 1
                out.append(self._mk(self.cs[i:j] if False else self.cs[i:n]))
                return out
            j = i
            while j < n and not bool(ch_in(self.cs[j], self._ws, self._wswide)):
                j += 1
            out.append(self._mk(self.cs[i:j]))
            i = j

    def splitlines(self, keepends=False):
        out = []
        i = start = 0
        brk = mask_of("\n\r\x0b\x0c\x1c\x1d\x1e\x85") if self._pt is str else mask_of("\n\r")
        n = len(self.cs)
        wide = (lambda c: c in (0x2028, 0x2029)) if self._pt is str else None
        while i < n:
            if bool(ch_in(self.cs[i], brk, wide)):
                j = i + 1
                if j < n and bool(and_(ch_eq(self.cs[i], 13), ch_eq(self.cs[j], 10))):
                    j += 1
                out.append(self._mk(self.cs[start:j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(self._mk(self.cs[start:]))
        return out

    def partition(self, sep):
        p = self._coerce(sep)
        if not p:
            raise ValueError("empty separator")
        i = self.find(sep)
        if i < 0:
            return (self, self._mk([]), self._mk([]))
        return (self._mk(self.cs[:i]), sep, self._mk(self.cs[i + len(p):]))

    def rpartition(self, sep):
        p = self._coerce(sep)
        if not p:
            raise ValueError("empty separator")
        i = self.rfind(sep)
        if i < 0:
            return (self._mk([]), self._mk([]), self)
        return (self._mk(self.cs[:i]), sep, self._mk(self.cs[i + len(p):]))

    def _stripset(self, chars):
        if chars is None:
            return lambda c: ch_in(c, self._ws, self._wswide)
        p = self._coerce(chars)
        if all(isinstance(x, int) and x < 256 for x in p):
            m = mask_of(p)
            return lambda c: ch_in(c, m)
        return lambda c: or_(*[ch_eq(c, x) for x in p])

    def lstrip(self, chars=None):
        f = self._stripset(chars)
        i = 0
        while i < len(self.cs) and bool(f(self.cs[i])):
            i += 1
        return self._mk(self.cs[i:])

    def rstrip(self, chars=None):
        f = self._stripset(chars)
        j = len(self.cs)
        while j > 0 and bool(f(self.cs[j - 1])):
            j -= 1
        return self._mk(self.cs[:j])

    def strip(self, chars=None):
        x = self.lstrip(chars)
        return x.rstrip(chars)

    def removeprefix(self, p):
        if bool(self.startswith(p)):
            return self._mk(self.cs[len(p):])
        return self

    def removesuffix(self, p):
        if len(p) and bool(self.endswith(p)):
            return self._mk(self.cs[:-len(p)])
        return self

    def replace(self, old, new, count=-1):
        p, q = self._coerce(old), self._coerce(new)
        count = idx(count)
        if not p:
            out = []
            n = 0
            for c in self.cs:
                if count < 0 or n < count:
                    out += q
                    n += 1
                out.append(c)
            if count < 0 or n < count:
                out += q
            return self._mk(out)
        out = []
        i = n = 0
        while i < len(self.cs):
            if (count < 0 or n < count) and i <= len(self.cs) - len(p):
                at = self._at(p, i)
                if len(p) == 1 and len(q) == 1 and count < 0 and is_sym(at):
                    out.append(ch_ite(at, q[0], self.cs[i]))
                    i += 1
                    continue
                if bool(at):
                    out += q
                    i += len(p)
                    n += 1
                    continue
            out.append(self.cs[i])
            i += 1
        return self._mk(out)

    def join(self, xs):
        out = []
        first = True
        for x in xs:
            if not first:
                out += self.cs
            first = False
            out += self._coerce(x, "sequence item")
        return self._mk(out)

    # -- padding
    def _fill(self, c):
        p = self._coerce(c)
        if len(p) != 1:
            raise TypeError("The fill character must be exactly one character long")
        return p

    def ljust(self, n, c=None):
        c = self._fill(c) if c is not None else [32]
        return self._mk(self.cs + c * max(0, idx(n) - len(self.cs)))

    def rjust(self, n, c=None):
        c = self._fill(c) if c is not None else [32]
        return self._mk(c * max(0, idx(n) - len(self.cs)) + self.cs)

    def center(self, n, c=None):
        c = self._fill(c) if c is not None else [32]
        n = idx(n)
        pad = max(0, n - len(self.cs))
        left = pad // 2 + (pad & n & 1)
        return self._mk(c * left + self.cs + c * (pad - left))

    def zfill(self, n):
        pad = idx(n) - len(self.cs)
        if pad <= 0:
            return self
        if self.cs and bool(ch_in(self.cs[0], mask_of("+-"))):
            return self._mk(self.cs[:1] + [48] * pad + self.cs[1:])
        return self._mk([48] * pad + self.cs)

    # -- classes
    def _cls(self, n):
        mask, wide = self._classes[n]
        if not self.cs:
            return n == "isascii"
        return and_(*[ch_in(c, mask, wide) for c in self.cs])

    def isdigit(self): return self._cls("isdigit")
    def isalpha(self): return self._cls("isalpha")
    def isalnum(self): return self._cls("isalnum")
    def isspace(self): return self._cls("isspace")
    def isascii(self): return self._cls("isascii")

    def _asciify(self):
        """make sure no symbolic character is outside ASCII (fork) - for case mapping"""
        out = []
        for c in self.cs:
            if isinstance(c, (int, DigitCh)):
                out.append(c)
                continue
            if c.size() == 8 and (self._pt is not str or bool(ch_in(c, M_ASCII))):
                out.append(c)
            elif self._pt is not str:
                out.append(c)
            else:
                out.append(concretise_ch(c))
        return out

    def _case(self, f):
        out = []
        for c in self._asciify():
            if isinstance(c, int):
                r = f(chr(c)) if (self._pt is str or c < 128) else chr(c)
                out += [ord(x) for x in r]
            elif isinstance(c, DigitCh):
                out.append(c)
            else:
                out.append(ch_map(c, lambda v: ord(f(chr(v))) if v < 128 else v))
        return self._mk(out)

    def upper(self): return self._case(str.upper)
    def lower(self): return self._case(str.lower)
    def swapcase(self): return self._case(str.swapcase)

    def isupper(self):
        if self._pt is str:
            up = _mcache("isupper", lambda c: chr(c).isupper())
            lo = _mcache("islower", lambda c: chr(c).islower())
            wu, wl = (lambda c: chr(c).isupper()), (lambda c: chr(c).islower())
        else:
            up, lo, wu, wl = M_UPPER, M_LOWER, None, None
        return and_(or_(*[ch_in(c, up, wu) for c in self.cs]), *[not_(ch_in(c, lo, wl)) for c in self.cs])

    def islower(self):
        if self._pt is str:
            up = _mcache("isupper", lambda c: chr(c).isupper())
            lo = _mcache("islower", lambda c: chr(c).islower())
            wu, wl = (lambda c: chr(c).isupper()), (lambda c: chr(c).islower())
        else:
            up, lo, wu, wl = M_UPPER, M_LOWER, None, None
        return and_(or_(*[ch_in(c, lo, wl) for c in self.cs]), *[not_(ch_in(c, up, wu)) for c in self.cs])

    def capitalize(self):
        a, b = self._mk(self.cs[:1]), self._mk(self.cs[1:])
        return a.upper() + b.lower()

    def _conc_call(self, name, *a, **k):
        return getattr(concretise(self, "%s.%s" % (self._pt.__name__, name)), name)(*[concretise(x) for x in a], **k)

    def title(self): return self._conc_call("title")
    def istitle(self): return self._conc_call("istitle")
    def expandtabs(self, n=8): return self._conc_call("expandtabs", n)
    def translate(self, table, *a):
        if self._pt is str and not a and isinstance(table, dict):
            out = []
            for c in self.cs:
                if isinstance(c, int):
                    out += [ord(x) for x in chr(c).translate(table)]
                    continue
                for k, v in table.items():
                    if bool(ch_eq(c, k)):
                        if v is not None:
                            out += [v] if isinstance(v, int) else [ord(x) for x in v]
                        break
                else:
                    out.append(c)
            return mkstr(out)
        return self._conc_call("translate", table, *a)

    def __str__(self):
        return str(concretise(self, "text passed to native code"))

    def __repr__(self):
        return "<%s len %d>" % (type(self).__name__, len(self.cs))

    def __format__(self, spec):
        return format(concretise(self, "text passed to native code"), spec)


_mc = {}


def _mcache(k, pred):
    if k not in _mc:
        _mc[k] = _m(pred)
    return _mc[k]


def ch_ite(cond, a, b):
    if cond is True: return a
    if cond is False: return b
    x, y = ch_bv(a), ch_bv(b)
    from .values import widen
    x, y = widen(x, y)
    t = z3.If(tb(cond), x, y)
    if t.size() == 8:
        e = cur()
        def d(c, x):
            if isinstance(c, int): return 1 << c
            if isinstance(c, DigitCh): return DIGMASK
            return e.dom.get(c.get_id(), FULL)
        # exclude the tested value from b's side when cond is a character test on b
        db = d(b, y)
        if isinstance(cond, SBool) and cond.lit and not isinstance(b, (int, DigitCh)) and cond.lit[0].eq(b):
            db &= FULL & ~cond.lit[1]
        e.dom[t.get_id()] = d(a, x) | db
        e.keep.append(t)
    return t


def ch_map(c, f):
    """apply a 256-entry map to a BV8 character"""
    e = cur()
    d = e.dom.get(c.get_id(), FULL)
    groups = {}
    img = 0
    for v in range(256):
        if d >> v & 1:
            r = f(v)
            img |= 1 << r
            groups.setdefault((r - v) % 256, []).append(v)
    if list(groups) == [0]:
        return c
    key = ("map", c.get_id(), tuple(sorted((k, mask_of(v)) for k, v in groups.items())))
    hit = e.term_cache.get(key)
    if hit is None:
        t = c
        for off, vs in groups.items():
            if off == 0: continue
            t = z3.If(tb(ch_in(c, mask_of(vs))), c + z3.BitVecVal(off, 8), t)
        e.term_cache[key] = (t, c)
    else:
        t = hit[0]
    e.dom[t.get_id()] = img
    return t


def byte_item(x):
    """int/SInt 0..255 -> item"""
    if isinstance(x, SInt):
        if x.b is not None:
            b = x.b
            if b.size() == 8: return b
            if b.size() < 8: return z3.ZeroExt(8 - b.size(), b)
            if not bool(x < 256):
                raise ValueError("byte must be in range(0, 256)")
            return z3.Extract(7, 0, b)
        if not bool(and_(x >= 0, x < 256)):
            raise ValueError("byte must be in range(0, 256)")
        return z3.Int2BV(x.t, 8)
    x = x.__index__()
    if not 0 <= x < 256:
        raise ValueError("byte must be in range(0, 256)")
    return x


def ch_ord(c):
    if isinstance(c, int): return c
    if isinstance(c, DigitCh):
        return SInt(c.t + 48, ch_bv(c))
    return SInt(b=c)


class SStr(_SeqOps):
    __slots__ = ()
    _pt = str
    _ws = STR_WS
    _classes = STR_CLASS

    @staticmethod
    def _wswide(c):
        return chr(c).isspace()

    def _mk(self, cs):
        return mkstr(cs)

    def _one(self, c):
        return mkstr([c])

    __eq__ = _SeqOps.__eq__
    __hash__ = Sym.__hash__

    def isdecimal(self): return self._cls("isdecimal")
    def isnumeric(self): return self._cls("isnumeric")

    def isprintable(self):
        return self._cls("isprintable") if self.cs else True

    def isidentifier(self): return self._conc_call("isidentifier")
    def casefold(self): return self._case(str.casefold)
    def format(self, *a, **k): return self._conc_call("format", *a, **k)
    def format_map(self, m): return self._conc_call("format_map", m)

    def __mod__(self, o):
        from . import text
        return text.percent(concretise(self, "format template"), o)

    def __rmod__(self, o):
        return NotImplemented

    def encode(self, enc="utf-8", errors="strict"):
        enc = str(enc).lower().replace("_", "-")
        out = []
        for i, c in enumerate(self.cs):
            if isinstance(c, DigitCh):
                out.append(c)
                continue
            if isinstance(c, int):
                out += list(chr(c).encode(enc, errors))
                continue
            if bool(ch_in(c, M_ASCII)):
                out.append(c if c.size() == 8 else z3.Extract(7, 0, c))
                continue
            if enc in ("latin-1", "latin1", "iso-8859-1", "iso8859-1", "l1"):
                if c.size() == 8:
                    out.append(c)
                    continue
                if bool(mkbool(z3.ULT(c, 256))):
                    out.append(z3.Extract(7, 0, c))
                    continue
            if enc in ("utf-8", "utf8", "u8"):
                w = z3.ZeroExt(21 - c.size(), c) if c.size() < 21 else c
                def six(k):
                    return z3.Concat(z3.BitVecVal(2, 2), z3.Extract(k + 5, k, w))
                if bool(mkbool(z3.ULT(w, 0x800))):
                    out += [z3.Concat(z3.BitVecVal(6, 3), z3.Extract(10, 6, w)), six(0)]
                    continue
                if bool(mkbool(z3.And(z3.UGE(w, 0xD800), z3.ULE(w, 0xDFFF)))):
                    out += list(chr(concretise_ch(c)).encode(enc, errors))
                    continue
                if bool(mkbool(z3.ULT(w, 0x10000))):
                    out += [z3.Concat(z3.BitVecVal(14, 4), z3.Extract(15, 12, w)), six(6), six(0)]
                    continue
                out += [z3.Concat(z3.BitVecVal(30, 5), z3.Extract(20, 18, w)), six(12), six(6), six(0)]
                continue
            out += list(chr(concretise_ch(c)).encode(enc, errors))
        return mkbytes(out)


class SBytes(_SeqOps):
    __slots__ = ()
    _pt = bytes
    _ws = BYTES_WS
    _wswide = None
    _classes = BYTES_CLASS

    def _mk(self, cs):
        return mkbytes(cs)

    def _one(self, c):
        return ch_ord(c)

    __eq__ = _SeqOps.__eq__
    __hash__ = Sym.__hash__

    def __mod__(self, o):
        return concretise(self) % concretise(o)

    def __bytes__(self):
        return concretise(self, "bytes passed to native code")

    def hex(self, *a):
        if a: return self._conc_call("hex", *a)
        from .text import nib_ch
        out = []
        for c in self.cs:
            b = ch_bv(c)
            for hi in (7, 3): out.append(nib_ch(z3.simplify(z3.Extract(hi, hi - 3, b)), "0123456789abcdef"))
        return mkstr(out)

    def decode(self, enc="utf-8", errors="strict"):
        enc = str(enc).lower().replace("_", "-")
        if enc in ("latin-1", "latin1", "iso-8859-1", "iso8859-1", "l1"):
            return mkstr(self.cs)
        out = []
        i = 0
        cs = self.cs
        n = len(cs)

        def bad(i):
            if enc not in ("utf-8", "utf8", "u8", "ascii", "us-ascii") or errors not in ("strict",):
                raise _Conc()
            raise UnicodeDecodeError("utf-8" if "u" in enc[:1] else "ascii", b"\xff", 0, 1, "invalid start byte")
        try:
            while i < n:
                c = cs[i]
                if bool(ch_in(c, M_ASCII)):
                    out.append(c)
                    i += 1
                    continue
                if enc not in ("utf-8", "utf8", "u8"):
                    if errors == "ignore":
                        i += 1
                        continue
                    bad(i)
                if errors == "ignore" or errors == "replace" or errors not in ("strict",):
                    raise _Conc()
                cont = lambda j, lo=0x80, hi=0xBF: j < n and bool(ch_in(cs[j], mask_of(range(lo, hi + 1))))
                B = lambda j: ch_bv(cs[j])
                if bool(ch_in(c, mask_of(range(0xC2, 0xE0)))):
                    if not cont(i + 1): bad(i)
                    out.append(wide(z3.Concat(z3.Extract(4, 0, B(i)), z3.Extract(5, 0, B(i + 1)))))
                    i += 2
                elif bool(ch_in(c, mask_of(range(0xE0, 0xF0)))):
                    if bool(ch_eq(c, 0xE0)): ok = cont(i + 1, 0xA0)
                    elif bool(ch_eq(c, 0xED)): ok = cont(i + 1, 0x80, 0x9F)
                    else: ok = cont(i + 1)
                    if not ok or not cont(i + 2): bad(i)
                    out.append(wide(z3.Concat(z3.Extract(3, 0, B(i)), z3.Extract(5, 0, B(i + 1)), z3.Extract(5, 0, B(i + 2)))))
                    i += 3
                elif bool(ch_in(c, mask_of(range(0xF0, 0xF5)))):
                    if bool(ch_eq(c, 0xF0)): ok = cont(i + 1, 0x90)
                    elif bool(ch_eq(c, 0xF4)): ok = cont(i + 1, 0x80, 0x8F)
                    else: ok = cont(i + 1)
                    if not ok or not cont(i + 2) or not cont(i + 3): bad(i)
                    out.append(wide(z3.Concat(z3.Extract(2, 0, B(i)), z3.Extract(5, 0, B(i + 1)),
                                              z3.Extract(5, 0, B(i + 2)), z3.Extract(5, 0, B(i + 3)))))
                    i += 4
                else:
                    bad(i)
        except _Conc:
            return concretise(self, "bytes.decode(%s,%s)" % (enc, errors)).decode(enc, errors)
        return mkstr(out)


def wide(t):
    t = z3.simplify(z3.ZeroExt(21 - t.size(), t)) if t.size() < 21 else t
    if z3.is_bv_value(t):
        return t.as_long()
    return t


class _Conc(Exception):
    pass


class SByteArray(Sym):
    """mutable byte buffer; v is bytes or SBytes"""
    __slots__ = ("v",)
    _pt = bytearray

    def __init__(self, v=b""):
        self.v = v.v if isinstance(v, SByteArray) else v

    def _x(self, o):
        return o.v if isinstance(o, SByteArray) else (bytes(o) if isinstance(o, (bytearray, memoryview)) else o)

    def __len__(self): return len(self.v)
    def __bool__(self): return len(self.v) > 0
    def __eq__(self, o):
        o = self._x(o)
        return self.v == o if isinstance(o, (bytes, SBytes)) else False
    def __ne__(self, o): return not_(self == o)
    __hash__ = None
    def __iter__(self): return iter(self.v)
    def __getitem__(self, i):
        if isinstance(i, slice):
            return SByteArray(self.v[slice(idx(i.start), idx(i.stop), idx(i.step))])
        return self.v[idx(i)]
    def __setitem__(self, i, x):
        c = list(items(self.v))
        if isinstance(i, slice):
            c[slice(idx(i.start), idx(i.stop), idx(i.step))] = items(self._x(x))
        else:
            c[idx(i)] = byte_item(x)
        self.v = mkbytes(c)
    def __delitem__(self, i):
        c = list(items(self.v))
        if isinstance(i, slice):
            del c[slice(idx(i.start), idx(i.stop), idx(i.step))]
        else:
            del c[idx(i)]
        self.v = mkbytes(c)
    def __add__(self, o):
        o = self._x(o)
        if not isinstance(o, (bytes, SBytes)): raise TypeError("can't concat to bytearray")
        return SByteArray(self.v + o)
    def __radd__(self, o):
        o = self._x(o)
        return o + self.v
    def __iadd__(self, o):
        o = self._x(o)
        if not isinstance(o, (bytes, SBytes)):
            if isinstance(o, (str, SSeq, int)): raise TypeError("can't concat to bytearray")
            o = mkbytes([byte_item(x) for x in o])
        self.v = self.v + o
        return self
    def __mul__(self, n): return SByteArray(self.v * idx(n))
    def extend(self, o): self.__iadd__(o)
    def append(self, x): self.v = self.v + mkbytes([byte_item(x)])
    def insert(self, i, x):
        c = list(items(self.v)); c.insert(idx(i), byte_item(x)); self.v = mkbytes(c)
    def pop(self, i=-1):
        if not len(self.v): raise IndexError("pop from empty bytearray")
        r = self.v[idx(i)]; del self[idx(i)]; return r
    def clear(self): self.v = b""
    def copy(self): return SByteArray(self.v)
    def __contains__(self, x):
        from . import rt
        return bool(rt.contains(self.v, x))
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        f = getattr(self.v, n)
        if not callable(f): return f

        def g(*a, **k):
            from . import rt
            r = rt.call(f, *[self._x(y) for y in a], **k)
            if isinstance(r, (bytes, SBytes)) and n not in ("hex", "decode"): return SByteArray(r)
            return r
        return g
    def __bytes__(self): return concretise(self.v) if is_sym(self.v) else self.v
    def __str__(self): return str(bytearray(self.__bytes__()))
    def __repr__(self): return "<SByteArray len %d>" % len(self.v)


class SBytesIO:
    """io.BytesIO over bytes / SBytes"""
    def __init__(self, initial_bytes=b""):
        self.v = initial_bytes.v if isinstance(initial_bytes, SByteArray) else (
            bytes(initial_bytes) if isinstance(initial_bytes, (bytearray, memoryview)) else initial_bytes)
        self.p = 0
        self.closed = False

    def read(self, n=-1):
        n = idx(n)
        if n is None or n < 0: n = len(self.v)
        r = self.v[self.p:self.p + n]
        self.p = max(self.p, min(len(self.v), self.p + n))
        return r
    read1 = read

    def readline(self, size=-1):
        size = idx(size)
        rest = self.v[self.p:]
        i = rest.find(b"\n")
        e = len(rest) if i < 0 else i + 1
        if size is not None and size >= 0: e = min(e, size)
        self.p += e
        return rest[:e]

    def readlines(self):
        out = []
        while True:
            l = self.readline()
            if not len(l): return out
            out.append(l)

    def __iter__(self): return self
    def __next__(self):
        l = self.readline()
        if not len(l): raise StopIteration
        return l
    def getvalue(self): return self.v
    def getbuffer(self): return self.v
    def tell(self): return self.p
    def seek(self, p, w=0):
        p = idx(p)
        self.p = max(0, p if w == 0 else (self.p + p if w == 1 else len(self.v) + p))
        return self.p
    def write(self, b):
        b = b.v if isinstance(b, SByteArray) else b
        pad = self.v + b"\0" * (self.p - len(self.v))
        self.v = pad[:self.p] + b + pad[self.p + len(b):]
        self.p += len(b)
        return len(b)
    def close(self): self.closed = True
    def readable(self): return True
    def seekable(self): return True
    def writable(self): return True
    def flush(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


SStr._types = (str, SStr)
SBytes._types = (bytes, bytearray, SBytes)

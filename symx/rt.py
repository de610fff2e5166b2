"""Run-time hooks the instrumented code calls (`_S.xxx`)."""
import builtins
import datetime as D
import functools
import io
import logging
import math
import operator
import re
import types
import gzip
import zlib
import z3
from . import core, values as V, strs, text, rx, dt, zl
from .core import cur, Unsupported, EngineStop, PathAbort
from .values import Sym, is_sym, has_sym, SInt, SBool, SFloat, SSeq, concretise, mkbool, mkint, and_, or_, not_, seq_eq
from .strs import SStr, SBytes, SByteArray, SBytesIO

INSTR_PREFIX = ("sx_pynmeagps", "sxh_")       # instrumented module name prefixes


# ------------------------------------------------------------- small models
def m_len(x):
    return len(x)


def m_int(x=0, *a, **k):
    if "base" in k: a = (k["base"],)
    if isinstance(x, (SSeq, SByteArray)):
        return text.parse_int(x, *(a or (10,)))
    if a and is_sym(a[0]):
        return int(x, concretise(a[0]))
    if isinstance(x, SInt): return x
    if isinstance(x, SBool): return x._i()
    if isinstance(x, SFloat): return V.f_trunc(x)
    if is_sym(x): raise TypeError("int() argument must be a string, a bytes-like object or a real number, not '%s'" % x._pt.__name__)
    if isinstance(x, (str, bytes, bytearray)) or type(x).__module__ == "builtins":
        return int(x, *a)
    return call(type(x).__int__, x) if hasattr(type(x), "__int__") else int(x)


def m_float(x=0.0):
    if isinstance(x, (SSeq, SByteArray)): return text.parse_float(x)
    if isinstance(x, (SInt, SBool, SFloat)): return V.tofloat(x)
    raise TypeError("float() argument must be a string or a real number, not '%s'" % x._pt.__name__)


def m_str(x="", *a, **k):
    if a or k:
        if isinstance(x, SByteArray): x = x.v
        return call(x.decode, *a, **k)
    if isinstance(x, BaseException):
        if not x.args: return ""
        if len(x.args) == 1: return text.to_str(x.args[0])
        return text.to_repr(x.args)
    if type(x) in (list, tuple, dict): return text.to_repr(x)
    return text.to_str(x)


def m_repr(x):
    return text.to_repr(x)


class SDecimal(V.Sym):
    """decimal.Decimal of a symbolic text: its sign and plain layout (only construction, abs and formatting)"""
    __slots__ = ("neg", "cs")
    _pt = __import__("decimal").Decimal

    def __init__(self, neg, cs): self.neg, self.cs = neg, cs
    def __abs__(self): return SDecimal(False, self.cs)
    def __neg__(self): return SDecimal(not self.neg, self.cs)

    def fmt(self, spec):
        if spec != "f": raise Unsupported("format %r of a Decimal" % spec)
        return strs.mkstr(([45] if self.neg else []) + self.cs)


def m_decimal(x="0", *a):
    D_ = SDecimal._pt
    if isinstance(x, SInt): x = text.to_str(x)
    if not isinstance(x, SStr): return D_(concretise(x, "argument of Decimal"), *a)
    cs = list(x.cs)
    neg = bool(cs) and cs[0] == 45
    if neg: cs = cs[1:]
    ex = 0
    if 101 in cs:
        i = cs.index(101)
        t = cs[i + 1:]
        if not all(isinstance(c, int) for c in t): return D_(concretise(x, "argument of Decimal"))
        ex, cs = int("".join(map(chr, t))), cs[:i]
    ip, fp = (cs[:cs.index(46)], cs[cs.index(46) + 1:]) if 46 in cs else (cs, [])
    if not ip or not all(V.is_digit_ch(c) for c in ip + fp): return D_(concretise(x, "argument of Decimal"))
    if ex < 0: ip, fp = [48] * (1 - ex - len(ip) + 0 if len(ip) <= -ex else 0) + ip, fp
    if ex < 0: ip, fp = ip[:ex], ip[ex:] + fp
    elif ex > 0:
        fp = fp + [48] * (ex - len(fp)) if len(fp) < ex else fp
        ip, fp = ip + fp[:ex], fp[ex:]
    return SDecimal(neg, ip + ([46] + fp if fp else []))


def m_bytes(x=b"", *a, **k):
    if a or k:
        return call(x.encode, *a, **k)
    if isinstance(x, SBytes): return x
    if isinstance(x, SByteArray): return x.v
    if isinstance(x, SStr): raise TypeError("string argument without an encoding")
    if isinstance(x, SInt): return bytes(concretise(x))
    if is_sym(x): raise TypeError("cannot convert")
    if isinstance(x, (list, tuple)) or not isinstance(x, (bytes, bytearray, memoryview, int, str)) and hasattr(x, "__iter__"):
        return strs.mkbytes([strs.byte_item(y) for y in x])
    return bytes(x)


def m_bytearray(x=b"", *a, **k):
    return SByteArray(m_bytes(x, *a, **k))


def m_bool(x=False):
    return x if isinstance(x, SBool) else bool(x)


def m_ord(x):
    if isinstance(x, SSeq) or isinstance(x, SByteArray):
        if len(x) != 1: raise TypeError("ord() expected a character, but string of length %d found" % len(x))
        return strs.ch_ord(V.items(x if isinstance(x, SSeq) else x.v)[0])
    raise TypeError("ord() expected string of length 1, but %s found" % x._pt.__name__)


def m_chr(x):
    if not isinstance(x, (SInt, SBool)): raise TypeError("an integer is required")
    x = V.as_int(x)
    if x.b is not None and x.b.size() <= 8:
        return strs.mkstr([V.zext(x.b, 8)])
    if not bool(and_(x >= 0, x < 0x110000)): raise ValueError("chr() arg not in range(0x110000)")
    if bool(x < 256):
        return strs.mkstr([z3.Extract(7, 0, x.b) if x.b is not None else z3.Int2BV(x.t, 8)])
    return strs.mkstr([V.zext(x.b, 21) if x.b is not None and x.b.size() <= 21 else z3.Int2BV(x.t, 21)])


def pytype(x):
    return x._pt if isinstance(x, Sym) else type(x)


def m_isinstance(x, cls):
    if isinstance(x, Sym):
        if isinstance(cls, tuple):
            return any(m_isinstance(x, c) for c in cls)
        if isinstance(cls, types.UnionType):
            return any(m_isinstance(x, c) for c in cls.__args__)
        return issubclass(x._pt, real_type(cls))
    if isinstance(x, SBytesIO):
        return isinstance(cls, type) and issubclass(io.BytesIO, cls) or cls is SBytesIO
    if isinstance(x, SRange):
        return cls is range
    return isinstance(x, cls)


def real_type(c):
    return c._pt if isinstance(c, type) and issubclass(c, Sym) else c


def m_issubclass(a, b):
    return issubclass(real_type(a), b)


def m_type(x, *a):
    if a: return type(x, *a)
    return pytype(x)


class SRange:
    """range() with symbolic bounds: every step forks on 'one more?'"""
    def __init__(self, a, b=None, c=1):
        if b is None: a, b = 0, a
        for x in (a, b, c):
            if not isinstance(x, (int, SInt, SBool)):
                raise TypeError("'%s' object cannot be interpreted as an integer" % getattr(x, "_pt", type(x)).__name__)
        self.a, self.b, self.c = a, b, (concretise(c) if is_sym(c) else c)
        if self.c == 0: raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i = self.a
        while bool(i < self.b if self.c > 0 else i > self.b):
            tick()
            yield i
            i = i + self.c

    def length(self):
        if self.c == 1 and not isinstance(self.b, SBool) and not isinstance(self.a, SBool):
            return self.b - self.a if bool(self.b > self.a) else 0
        return len(range(*[concretise(x) for x in (self.a, self.b, self.c)]))
    def __bool__(self): return bool(self.a < self.b if self.c > 0 else self.a > self.b)
    def __contains__(self, x):
        return bool(self.contains(x))
    def contains(self, x):
        if not isinstance(x, (int, SInt)): return False
        if self.c == 1: return and_(x >= self.a, x < self.b)
        return and_(x >= self.a, x < self.b, (x - self.a) % self.c == 0) if self.c > 0 else and_(x <= self.a, x > self.b, (self.a - x) % -self.c == 0)
    def __getitem__(self, i): return range(*[concretise(x) for x in (self.a, self.b, self.c)])[i]
    def __reversed__(self): return reversed(range(*[concretise(x) for x in (self.a, self.b, self.c)]))


def m_range(*a):
    if any(is_sym(x) for x in a): return SRange(*a)
    return range(*a)


def m_map(f, *its):
    for args in zip(*its):
        yield call(f, *args)


def m_filter(f, it):
    for x in it:
        if (bool(x) if f is None else bool(call(f, x))): yield x


def m_reduce(f, it, *init):
    it = iter(it)
    if init: acc = init[0]
    else:
        try: acc = next(it)
        except StopIteration: raise TypeError("reduce() of empty iterable with no initial value") from None
    for x in it: acc = call(f, acc, x)
    return acc


def m_sorted(it, *, key=None, reverse=False):
    xs = list(it)
    if key is not None:
        dec = [(call(key, x), i, x) for i, x in enumerate(xs)]
        return [x for _, _, x in sorted(dec, key=functools.cmp_to_key(lambda p, q: (-1 if bool(p[0] < q[0]) else (1 if bool(q[0] < p[0]) else p[1] - q[1]) ) * (-1 if reverse else 1)))]
    return sorted(xs, reverse=reverse)


def m_minmax(name):
    nat = getattr(builtins, name)

    def g(*a, key=None, default=core, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if default is not core: return default
            raise ValueError("%s() iterable argument is empty" % name)
        ks = [call(key, x) for x in xs] if key is not None else xs
        if all(isinstance(x, (int, SInt)) and not isinstance(x, bool) for x in ks) and key is None and has_sym(ks):
            # merge instead of forking
            t = V.ti(ks[0])
            for y in ks[1:]:
                u = V.ti(y)
                t = z3.If(u < t, u, t) if name == "min" else z3.If(u > t, u, t)
            return mkint(z3.simplify(t))
        b = 0
        for i in range(1, len(xs)):
            if bool(ks[i] < ks[b] if name == "min" else ks[i] > ks[b]): b = i
        return xs[b]
    g.native = nat
    return g


def m_any(it):
    for x in it:
        if bool(x): return True
    return False


def m_all(it):
    for x in it:
        if not bool(x): return False
    return True


def m_sum(it, start=0):
    for x in it: start = start + x
    return start


def m_abs(x): return abs(x)
def m_divmod(a, b): return divmod(a, b)


def m_round(x, n=None):
    if isinstance(x, SFloat): return V.f_round(x, n)
    if isinstance(x, (SInt, SBool)): return round(V.as_int(x), n)
    return round(concretise(x), concretise(n) if is_sym(n) else n)


def m_pow(a, b, m=None):
    if m is None: return a ** b
    return pow(concretise(a), concretise(b), concretise(m))


def m_hex(x): return _radix(x, "x", "0x")
def m_bin(x): return _radix(x, "b", "0b")
def m_oct(x): return _radix(x, "o", "0o")


def _radix(x, t, pre):
    if not isinstance(x, (SInt, SBool)): raise TypeError("'%s' object cannot be interpreted as an integer" % x._pt.__name__)
    x = V.as_int(x)
    if x.b is None and bool(x < 0):
        return "-" + pre + text.fmt(-x, t)
    return pre + text.fmt(x, t)


def m_format(x, spec=""): return text.fmt(x, spec)


def m_getattr(o, n, *d):
    if is_sym(n): n = concretise(n, "attribute name")
    return getattr(o, n, *d)


def m_setattr(o, n, v):
    if is_sym(n):
        f = type(o).__setattr__
        if isinstance(f, types.FunctionType) and is_instr(f):
            f(o, n, v)
            return
        n = concretise(n, "attribute name")
    setattr(o, n, v)


def m_hasattr(o, n):
    if is_sym(n): n = concretise(n, "attribute name")
    return hasattr(o, n)


def m_delattr(o, n):
    if is_sym(n):
        f = type(o).__delattr__
        if isinstance(f, types.FunctionType) and is_instr(f):
            f(o, n)
            return
        n = concretise(n, "attribute name")
    delattr(o, n)


def m_print(*a, **k): pass


def m_enumerate(it, start=0): return enumerate(it, start)


def _opm(f):
    return f


def m_floor(x):
    if isinstance(x, SFloat): return x.__floor__()
    if isinstance(x, (SInt, SBool)): return V.as_int(x)
    raise TypeError("must be real number")


def m_ceil(x):
    if isinstance(x, SFloat): return x.__ceil__()
    return m_floor(x)


def m_trunc(x):
    if isinstance(x, SFloat): return V.f_trunc(x)
    return m_floor(x)


def m_fabs(x): return abs(V.tofloat(x))


def m_modf(x):
    x = V.tofloat(x)
    i = V.ti(V.f_trunc(x))
    return SFloat(z3.simplify(x.r - z3.ToReal(i))), SFloat(z3.ToReal(i))


def m_fmod(x, y):
    if bool(x >= 0) and not is_sym(y) and y > 0: return divmod(x, y)[1]
    return math.fmod(concretise(x), concretise(y))


def m_copysign(x, y):
    a = abs(x) if is_sym(x) else abs(float(x))
    if not is_sym(y): return a if math.copysign(1, y) > 0 else -a
    return -a if bool(y < 0) else a


def m_special(x, what):
    """isnan / isinf / isfinite"""
    if isinstance(x, SFloat) and x.src is not None:
        if any(bool(V.ch_in(c, V.NFCH)) for c in x.src.cs):
            try:
                x.real()
            except V.NonFinite:
                return what(x.nf)
    return what(0.0)


def m_isfinite(x): return m_special(x, math.isfinite)
def m_isnan(x): return m_special(x, math.isnan)
def m_isinf(x): return m_special(x, math.isinf)


def mathfun(name):
    """transcendental functions: stub of the explorer (see harness) or concretise"""
    nat = getattr(math, name)

    def g(*a):
        h = getattr(cur(), "math_stub", None)
        if h is not None:
            return h(name, *a)
        return nat(*[concretise(x, "math.%s" % name) for x in a])
    g.always = True
    return g


def m_fromhex(s):
    cs, out = list(V.items(s)), []
    ws = V.mask_of(" \t\n\r\x0b\x0c")
    while cs:
        if bool(V.ch_in(cs[0], ws)):
            cs = cs[1:]
            continue
        if len(cs) < 2 or not bool(V.and_(V.ch_in(cs[0], text.HEXM), V.ch_in(cs[1], text.HEXM))): raise ValueError("non-hexadecimal number found in fromhex() arg")
        out.append(V.mkint(text.hexval(cs[0]) * 16 + text.hexval(cs[1])))
        cs = cs[2:]
    return m_bytes(out)


def m_hexlify(b, *a):
    if a: return __import__("binascii").hexlify(concretise(b), *a)
    return (b.v if isinstance(b, SByteArray) else b).hex().encode()


def m_unhexlify(s):
    if isinstance(s, strs.SBytes): s = s.decode("latin-1")
    if not s.isascii() or any(bool(V.ch_in(c, V.mask_of(" \t\n\r\x0b\x0c"))) for c in V.items(s)): raise ValueError("Non-hexadecimal digit found")
    return m_fromhex(s)


def m_deque(x=(), maxlen=None):
    return _c.deque(list(x), concretise(maxlen))


def m_int_from_bytes(b, byteorder="big", *, signed=False):
    cs = V.items(b.v if isinstance(b, SByteArray) else b)
    if signed: return int.from_bytes(concretise(b), byteorder, signed=signed)
    if byteorder == "little": cs = cs[::-1]
    bv = [V.ch_bv(c) for c in cs]
    return SInt(b=z3.Concat(*bv) if len(bv) > 1 else bv[0])


def m_eval(src, *a):
    return _eval_hook(src, *a)


def _eval_hook(src, *a):
    raise Unsupported("eval of symbolic source")


def m_zip(*its, **k): return zip(*its, **k)


MODELS = {
    int: m_int, float: m_float, str: m_str, repr: m_repr, ascii: m_repr, bytes: m_bytes, bool: m_bool, ord: m_ord, chr: m_chr,
    isinstance: m_isinstance, issubclass: m_issubclass, type: m_type, range: m_range, map: m_map, filter: m_filter,
    functools.reduce: m_reduce, sorted: m_sorted, min: m_minmax("min"), max: m_minmax("max"), any: m_any, all: m_all, sum: m_sum,
    abs: m_abs, divmod: m_divmod, round: m_round, pow: m_pow, hex: m_hex, bin: m_bin, oct: m_oct, format: m_format,
    getattr: m_getattr, setattr: m_setattr, hasattr: m_hasattr, delattr: m_delattr, print: m_print, len: m_len,
    math.floor: m_floor, math.ceil: m_ceil, math.trunc: m_trunc, math.fabs: m_fabs, math.modf: m_modf, math.fmod: m_fmod,
    math.copysign: m_copysign, math.isfinite: m_isfinite, math.isnan: m_isnan, math.isinf: m_isinf, math.pow: m_pow,
    SDecimal._pt: m_decimal, bytes.fromhex: m_fromhex, int.from_bytes: m_int_from_bytes,
    D.date: dt.mkdate, D.time: dt.mktime, D.datetime: dt.mkdatetime, D.timedelta: dt.mktimedelta,
}
ALWAYS = {bytearray: m_bytearray, io.BytesIO: SBytesIO, map: m_map, filter: m_filter, functools.reduce: m_reduce,
          isinstance: m_isinstance, type: m_type, sorted: m_sorted, getattr: m_getattr, zlib.decompressobj: zl.Decomp}
MODELS[zlib.decompress] = zl.decompress
MODELS[gzip.decompress] = zl.gz_decompress
for _n in ("sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sqrt", "exp", "log", "log10", "hypot", "dist", "radians",
           "degrees", "sinh", "cosh", "tanh", "cbrt", "log2"):
    if hasattr(math, _n):
        MODELS[getattr(math, _n)] = mathfun(_n)
RADIANS = math.radians

PASS = {list, tuple, dict, set, frozenset, enumerate, zip, iter, next, reversed, slice, super, id, callable, vars, dir, object,
        staticmethod, classmethod, property, hash, functools.partial, functools.wraps}
for _n in ("add", "sub", "mul", "floordiv", "truediv", "xor", "and_", "or_", "neg", "pos", "abs", "eq", "ne", "lt", "le", "gt", "ge",
           "lshift", "rshift", "not_", "truth", "pow", "invert", "index", "iadd", "ixor", "ior", "iand", "isub", "imul", "concat",
           "itemgetter", "attrgetter", "methodcaller"):
    PASS.add(getattr(operator, _n))
def _bisect(left):
    def f(a, x, lo=0, hi=None, *, key=None):
        if hi is None: hi = len(a)
        lo, hi = concretise(lo), concretise(hi)
        while lo < hi:
            core.cur().tick()
            m = (lo + hi) // 2
            y = a[m] if key is None else call(key, a[m])
            if left:
                if bool(y < x): lo = m + 1
                else: hi = m
            elif bool(x < y): hi = m
            else: lo = m + 1
        return lo
    return f


import bisect as _bs
MODELS[_bs.bisect_left] = _bisect(True)
MODELS[_bs.bisect_right] = MODELS[_bs.bisect] = _bisect(False)
import collections as _c
import binascii as _ba
MODELS[_ba.hexlify] = MODELS[_ba.b2a_hex] = m_hexlify
MODELS[_ba.unhexlify] = MODELS[_ba.a2b_hex] = m_unhexlify
MODELS[_c.deque] = m_deque
MODELS[operator.mod] = lambda a, b: mod(a, b)
MODELS[operator.contains] = lambda a, b: contains(a, b)
MODELS[operator.getitem] = lambda a, b: getitem(a, b)
for _n in ("chain", "islice", "takewhile", "dropwhile", "count", "repeat", "cycle", "zip_longest", "accumulate", "groupby", "starmap",
           "product", "pairwise", "tee"):
    import itertools
    if hasattr(itertools, _n): PASS.add(getattr(itertools, _n))

CONTAINERS = (list, dict, set, frozenset, tuple)
import collections as _c
CONT_SELF = (list, set, _c.deque, tuple)


def is_instr(f):
    m = getattr(f, "__module__", None)
    return isinstance(m, str) and m.startswith(INSTR_PREFIX)


def m_method(f, slf, name, a, k):
    """built-in method `name` of concrete object slf with some symbolic argument"""
    if isinstance(slf, (str, bytes)):
        if name == "format" and isinstance(slf, str):
            return text.str_format(slf, a, k)
        if name == "join":
            return (SStr if isinstance(slf, str) else SBytes)(V.items(slf)).join(*a)
        if name in ("encode", "decode", "format_map", "translate", "maketrans", "__format__", "__mod__"):
            if name == "__mod__": return text.percent(slf, *a)
            return f(*[concretise(x, "argument of %s" % name) for x in a], **{x: concretise(y) for x, y in k.items()})
        p = (SStr if isinstance(slf, str) else SBytes)(V.items(slf))
        g = getattr(p, name, None)
        if g is None: raise Unsupported("str method %s" % name)
        return g(*a, **k)
    if isinstance(slf, bytearray):
        raise Unsupported("bytearray method %s with symbolic argument" % name)
    if isinstance(slf, (dict, set)):
        if a and symkey(a[0]):
            r = dict_method(slf, name, a, k)
            if r is not NotImplemented: return r
        if name == "__contains__": return contains(slf, a[0])
        return f(*a, **k)
    if isinstance(slf, CONT_SELF) or isinstance(slf, types.GeneratorType):
        return f(*a, **k)
    if isinstance(slf, frozenset): return f(*a, **k)
    if isinstance(slf, re.Pattern):
        return rx.do(name, slf, 0, a, k)
    if isinstance(slf, io.BytesIO):
        raise Unsupported("BytesIO method with symbolic argument")
    if isinstance(slf, type) and issubclass(slf, D.datetime) and name == "strptime":
        return dt.strptime(*a)
    if isinstance(slf, type) and issubclass(slf, D.datetime) and name == "combine":
        return dt.combine(*a, **k)
    if isinstance(slf, type) and issubclass(slf, D.date) and name in ("fromisoformat", "fromordinal", "fromtimestamp", "utcfromtimestamp", "today"):
        if name == "fromordinal":
            return dt.SDate(*[SInt(x) for x in dt.fields_of_ordinal(a[0].t)])
        if name == "fromtimestamp" and (len(a) > 1 or "tz" in k):
            tz = a[1] if len(a) > 1 else k["tz"]
            if tz is D.timezone.utc and isinstance(a[0], SInt):
                return D.datetime(1970, 1, 1, tzinfo=tz) + dt.mktimedelta(seconds=a[0])
        return f(*[concretise(x, "datetime.%s" % name) for x in a], **{x: concretise(y) for x, y in k.items()})
    if isinstance(slf, (D.datetime, D.date, D.time)) and name == "replace":
        if isinstance(slf, D.datetime):
            return dt.SDateTime(f=(slf.year, slf.month, slf.day, slf.hour, slf.minute, slf.second, slf.microsecond), tz=slf.tzinfo).replace(*a, **k)
        if isinstance(slf, D.date): return dt.SDate(slf.year, slf.month, slf.day).replace(*a, **k)
        return dt.STime(slf.hour, slf.minute, slf.second, slf.microsecond, slf.tzinfo).replace(*a, **k)
    if isinstance(slf, type) and slf is dict and name == "fromkeys":
        return f(*a, **k)
    if isinstance(slf, (int, float)) and name.startswith("__"):
        op = {"__add__": operator.add, "__mul__": operator.mul, "__xor__": operator.xor}.get(name)
        if op: return op(slf, *a)
    return NotImplemented


NOKEY = object()


_bylen = {}


def same_length_keys(d, n, t):
    """concrete keys of type t and length n, for large constant containers indexed once"""
    if len(d) < 12:
        return [k for k in d if not isinstance(k, t) or len(k) == n]
    hit = _bylen.get(id(d))
    if hit is None or hit[0] is not d or hit[1] != len(d):
        ix = {}
        odd = []
        for k in d:
            if isinstance(k, (str, bytes)): ix.setdefault((type(k), len(k)), []).append(k)
            elif not isinstance(k, (int, float, tuple)): odd.append(k)
        if odd:
            return [k for k in d if not isinstance(k, t) or len(k) == n]
        hit = _bylen[id(d)] = (d, len(d), ix)
    return hit[2].get((t, n), [])


def _ckey(key):
    e = cur()
    return tuple([c if isinstance(c, int) else (-1, c.t.get_id()) if isinstance(c, V.DigitCh) else (c.get_id(), e.dom.get(c.get_id(), 0)) for c in key.cs])


class Side:
    """entries of a dict / set whose keys are symbolic (this path only)"""
    __slots__ = ("o", "ents")

    def __init__(self, o):
        self.o, self.ents = o, []          # [[key, value]]


def symkey(x):
    return isinstance(x, Sym) or type(x) is tuple and has_sym(x)


def side(o):
    s = cur().symkeys
    return s.get(id(o)) if s else None


def key_equal(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        return and_(True, *[key_equal(x, y) for x, y in zip(a, b)])
    if isinstance(a, tuple) or isinstance(b, tuple): return False
    if isinstance(a, (SSeq, str, bytes)) != isinstance(b, (SSeq, str, bytes)): return False
    return a == b


def side_find(o, key):
    """the entry of the side table equal to key (forks)"""
    s = side(o)
    if s is not None:
        for e in s.ents:
            if bool(key_equal(e[0], key)): return e
    return None


def side_put(o, key, v):
    e = side_find(o, key)
    if e is not None: e[1] = v
    else: cur().symkeys.setdefault(id(o), Side(o)).ents.append([key, v])


def side_get(o, key):
    """(found, value): every operation that looks a key up when keys or key are symbolic"""
    e = side_find(o, key)
    if e is not None: return True, e[1]
    if symkey(key):
        k = find_key(o, key)
        if k is NOKEY: return False, None
    else:
        if key not in o: return False, None
        k = key
    return True, (o[k] if isinstance(o, dict) else True)


def dict_method(o, name, a, k):
    """methods of a dict / set with symbolic keys or with a symbolic key argument"""
    if isinstance(o, dict):
        if name in ("get", "pop", "setdefault", "__getitem__"):
            ok, v = side_get(o, a[0])
            if ok:
                if name == "pop":
                    e = side_find(o, a[0])
                    if e is not None: side(o).ents.remove(e)
                    else: del o[find_key(o, a[0]) if symkey(a[0]) else a[0]]
                return v
            if name == "get": return a[1] if len(a) > 1 else k.get("default")
            if name == "setdefault":
                setitem(o, a[0], a[1] if len(a) > 1 else None)
                return a[1] if len(a) > 1 else None
            if name == "pop" and len(a) > 1: return a[1]
            raise KeyError(a[0])
        if name == "__contains__": return side_get(o, a[0])[0]
        if name == "clear" and side(o) is not None: del cur().symkeys[id(o)]
        elif name in ("update",) and not k and len(a) == 1 and isinstance(a[0], dict) and side(o) is None and side(a[0]) is None: pass
        elif side(o) is not None and name in ("items", "keys", "values", "copy", "popitem", "update"):
            raise Unsupported("dict.%s with symbolic keys" % name)
        return NotImplemented
    if name == "add":
        if not side_get(o, a[0])[0]:
            if symkey(a[0]): side_put(o, a[0], True)
            else: return NotImplemented
        return None
    if name == "__contains__": return side_get(o, a[0])[0]
    if name in ("discard", "remove"):
        e = side_find(o, a[0])
        if e is not None: side(o).ents.remove(e)
        else:
            k2 = find_key(o, a[0]) if symkey(a[0]) else a[0] if a[0] in o else NOKEY
            if k2 is not NOKEY: o.discard(k2)
            elif name == "remove": raise KeyError(a[0])
        return None
    if side(o) is not None: raise Unsupported("set.%s with symbolic members" % name)
    return NotImplemented


def key_eqs(d, key):
    """[(k, key == k)] for the keys that may equal the symbolic key (cached); True if one certainly does"""
    if isinstance(key, SSeq):
        ks = same_length_keys(d, len(key.cs), str if isinstance(key, SStr) else bytes)
        big = len(ks) > 3 and all(type(k) in (str, bytes) for k in ks)
        if big:
            ck = (tuple(ks), _ckey(key))
            hit = cur().member_cache.get(ck)
            if hit is not None: return hit[0]
    else:
        ks, big = list(d), False
        if type(key) is tuple:
            for k in ks:
                r = key_equal(key, k) if isinstance(k, tuple) else False
                if r is True: return [(k, True)]
            return [(k, r) for k in ks for r in [key_equal(key, k) if isinstance(k, tuple) else False] if r is not False]
    out = []
    for k in ks:
        if isinstance(k, (str, bytes, int, float, tuple)) and _cannot_equal(key, k): continue
        r = key == k
        if r is True:
            out = [(k, True)]
            break
        if r is not False: out.append((k, r))
    if big: cur().member_cache[ck] = (out, key)
    return out


def find_key(d, key):
    """fork over the keys of dict/set/list equal to the symbolic key; NOKEY if none"""
    live = key_eqs(d, key)
    if not live: return NOKEY
    if live[0][1] is True: return live[0][0]
    conds = [e.t for _, e in live]
    i = cur().choose(conds + [V.zz.Not(V.zz.Or(conds))])
    return live[i][0] if i < len(live) else NOKEY


def _cannot_equal(key, k):
    if isinstance(key, SSeq):
        if isinstance(k, str) != isinstance(key, SStr): return True
        return isinstance(k, (str, bytes)) and len(k) != len(key)
    return False


def _logging(f):
    s = getattr(f, "__self__", None)
    return isinstance(s, (logging.Logger, logging.LoggerAdapter))


_LRU = functools._lru_cache_wrapper


def memo(f, a, k):
    """functools.cache / lru_cache: one table per path"""
    tab = cur().memo.setdefault(id(f), [])
    key = a + tuple(x for n in sorted(k) for x in (n, k[n]))
    for x in key:
        if isinstance(x, (list, dict, set, bytearray)): raise TypeError("unhashable type: '%s'" % type(x).__name__)
    for q, v in tab:
        if bool(key_equal(q, key)): return v
    v = call(f.__wrapped__, *a, **k)
    tab.append((key, v))
    return v


def call(f, *a, **k):
    e = core._cur
    if e is None:
        return f(*a, **k)
    try:
        g = ALWAYS.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(*a, **k)
    if isinstance(f, types.FunctionType):
        if is_instr(f):
            return f(*a, **k)
    elif isinstance(f, types.MethodType):
        s = f.__self__
        if isinstance(s, Sym) or is_instr(f.__func__) or type(s).__module__.startswith("symx"):
            return f(*a, **k)
        if _logging(f):
            h = getattr(e, "log_hook", None)
            if h: h(f.__name__, a)
            return None
    elif isinstance(f, type) and is_instr(f):
        return f(*a, **k)
    if f is D.datetime.now or (getattr(f, "__name__", "") in ("now", "utcnow", "today") and isinstance(getattr(f, "__self__", None), type)
                              and issubclass(f.__self__, D.date)):
        h = getattr(e, "now_hook", None)
        if h is not None:
            return h(f.__name__, *a, **k)
    s = getattr(f, "__self__", None)
    if isinstance(s, Sym) or isinstance(s, (SBytesIO, rx.SMatch, SRange)):
        return f(*a, **k)
    if type(f) is _LRU: return memo(f, a, k)
    if e.symkeys:
        if isinstance(s, (dict, set)) and id(s) in e.symkeys:
            r = dict_method(s, getattr(f, "__name__", ""), a, k)
            if r is not NotImplemented: return r
        elif a and isinstance(a[0], (dict, set)) and id(a[0]) in e.symkeys:
            if f is len: return len(a[0]) + len(e.symkeys[id(a[0])].ents)
            if f is bool: return True
            if f not in (isinstance, id, type, callable, hasattr, getattr): raise Unsupported("%s of a container with symbolic keys" % getattr(f, "__name__", f))
    sym = False
    for x in a:
        if isinstance(x, Sym) or (type(x) in (list, tuple, dict) and has_sym(x)):
            sym = True
            break
    if not sym:
        for x in k.values():
            if isinstance(x, Sym) or (type(x) in (list, tuple, dict) and has_sym(x)):
                sym = True
                break
    if not sym and f is len and a and isinstance(a[0], SRange): return a[0].length()
    if not sym:
        if a and isinstance(a[0], (types.GeneratorType, map, filter, enumerate, zip)) and not is_instr(f):
            # native consumer of a lazily symbolic iterable
            if f in (list, tuple, set, dict, enumerate, zip, iter, next, frozenset): return f(*a, **k)
            if f in MODELS: return MODELS[f](*a, **k)
            name = getattr(f, "__name__", "")
            if name == "join" and isinstance(s, (str, bytes)):
                xs = list(a[0])
                if has_sym(xs): return m_method(f, s, name, (xs,), k)
                return f(xs)
            if name == "extend" and isinstance(s, list): return f(*a, **k)
        elif getattr(f, "__name__", "") == "join" and isinstance(s, (str, bytes)) and len(a) == 1 and not k and type(a[0]) not in (list, tuple, str, bytes):
            xs = list(a[0])
            return m_method(f, s, "join", (xs,), k) if has_sym(xs) else f(xs)
        if type(s) is str and f.__name__ == "format" and _insts(a + tuple(k.values())): return text.str_format(s, a, k)
        if (f is str or f is repr) and len(a) == 1 and is_instr(type(a[0])) and not k:
            if isinstance(a[0], BaseException): return m_str(a[0]) if f is str else m_repr(a[0])
            return call(type(a[0]).__str__ if f is str else type(a[0]).__repr__, a[0])
        return f(*a, **k)
    if getattr(e, "icp", None) is not None:
        r = e.icp.model(f, a, k)
        if r is not NotImplemented: return r
    try:
        g = MODELS.get(f)
        if g is not None:
            return g(*a, **k)
        if f in PASS:
            return f(*a, **k)
    except TypeError as ex:
        if "unhashable" not in str(ex): raise
    if isinstance(f, type):
        if issubclass(f, BaseException):
            return f(*a, **k)
        if is_instr(f) or f.__module__.startswith("symx"):
            return f(*a, **k)
    name = getattr(f, "__name__", "")
    if isinstance(f, (functools.partial, operator.itemgetter, operator.attrgetter)):
        if isinstance(f, functools.partial):
            return call(f.func, *f.args, *a, **{**f.keywords, **k})
        return f(*a, **k)
    if getattr(f, "__module__", None) == "re" and name in ("match", "search", "fullmatch", "split", "findall", "finditer", "sub", "subn"):
        pat, rest = a[0], a[1:]
        k = dict(k)
        fl = k.pop("flags", 0)
        if name in ("match", "search", "fullmatch", "findall", "finditer") and len(rest) > 1:
            fl, rest = rest[1], rest[:1]
        return rx.do(name, pat, fl, rest, k)
    if isinstance(f, (types.MethodWrapperType, types.WrapperDescriptorType)) or f in (object.__setattr__, object.__delattr__, object.__getattribute__):
        if name in ("__setattr__", "__delattr__", "__getattribute__", "__getattr__", "__init__"):
            a = tuple(concretise(x, "attribute name") if isinstance(x, SStr) and name != "__init__" and i == (0 if s is not None else 1) else x for i, x in enumerate(a))
            return f(*a, **k)
    if s is not None and not isinstance(s, types.ModuleType):
        r = m_method(f, s, name, a, k)
        if r is not NotImplemented:
            return r
    if isinstance(f, types.MethodDescriptorType):        # str.upper(x), dict.get(d, k)
        o = a[0]
        if isinstance(o, Sym): return getattr(o, name)(*a[1:], **k)
        return call(getattr(o, name), *a[1:], **k)
    if isinstance(f, types.MethodType) or (isinstance(f, types.FunctionType) and f.__module__ and f.__module__.startswith("symx")):
        if isinstance(f, types.FunctionType): return f(*a, **k)
    if not isinstance(f, (type, types.FunctionType, types.BuiltinFunctionType, types.MethodType)) and is_instr(type(f)):
        return f(*a, **k)
    if isinstance(f, types.GenericAlias): return f(*a, **k)
    # not modelled: concretise the arguments (bounded, recorded as a cut)
    what = "argument of %s.%s" % (getattr(f, "__module__", "") or "", getattr(f, "__qualname__", name) or repr(f))
    a2 = [concretise(x, what) for x in a]
    k2 = {x: concretise(y, what) for x, y in k.items()}
    return f(*a2, **k2)


def contains(c, x):
    """x in c -> bool / SBool"""
    if core._cur is None:
        return x in c
    if isinstance(c, _SeqLike):
        return c._contains(x)
    if isinstance(c, SByteArray):
        return contains(c.v, x)
    if isinstance(c, (str, bytes)) and is_sym(x):
        return (SStr if isinstance(c, str) else SBytes)(V.items(c))._contains(x)
    if isinstance(c, SRange): return c.contains(x)
    if isinstance(c, (dict, set)) and (type(x) is tuple and has_sym(x) or core._cur.symkeys and id(c) in core._cur.symkeys):
        return side_get(c, x)[0]
    if isinstance(c, (tuple, list, dict, set, frozenset, type({}.keys()), type({}.values()))) and (is_sym(x) or (len(c) < 200 and has_sym(list(c)))):
        if isinstance(x, SSeq) and isinstance(c, (dict, set, frozenset, type({}.keys()))):
            return in_keys(x, c)
        return or_(*[x == y for y in c])
    if isinstance(c, range) and is_sym(x):
        return or_(False, SRange(c.start, c.stop, c.step).contains(x))
    return x in c


_SeqLike = strs._SeqOps
_keyidx = {}


def in_keys(x, c):
    """membership of symbolic text in a set of concrete keys, grouped by length"""
    live = key_eqs(c, x)
    if not live: return False
    if live[0][1] is True: return True
    if len(live) == 1: return live[0][1]
    key = tuple([r.t.get_id() for _, r in live])
    e = cur()
    hit = e.member_cache.get(key)
    if hit is None: hit = e.member_cache[key] = (or_(*[r for _, r in live]), live)
    return hit[0]


def notin(c, x):
    return not_(contains(c, x))


def getitem(o, i):
    if core._cur is None:
        return o[i]
    if isinstance(o, dict) and (type(i) is tuple and has_sym(i) or core._cur.symkeys and id(o) in core._cur.symkeys):
        ok, v = side_get(o, i)
        if ok: return v
        if hasattr(type(o), "__missing__"): raise Unsupported("missing symbolic key")
        raise KeyError(i)
    if is_sym(i):
        if isinstance(o, dict):
            if type(o).__missing__ if hasattr(type(o), "__missing__") else False:
                k = find_key(o, i)
                return o[k] if k is not NOKEY else o[concretise(i, "dict key")]
            k = find_key(o, i)
            if k is NOKEY: raise KeyError(i)
            return o[k]
        if isinstance(o, (list, tuple, str, bytes)) and isinstance(i, (SInt, SBool)):
            n = len(o)
            i = V.as_int(i)
            if not bool(and_(i >= -n, i < n)):
                raise IndexError("%s index out of range" % type(o).__name__)
            if isinstance(o, (str, bytes)) or all(type(y) is int for y in o):
                pass
            return o[concretise_all(i, 2 * n)]
    return o[i]


def concretise_all(x, n):
    e = cur()
    m = e.max_concretise
    e.max_concretise = max(m, n + 1)
    try:
        return concretise(x, "index")
    finally:
        e.max_concretise = m


def setitem(o, i, v):
    if core._cur is not None and isinstance(o, dict) and (symkey(i) or core._cur.symkeys and id(o) in core._cur.symkeys):
        e = side_find(o, i)
        if e is not None:
            e[1] = v
            return
        if symkey(i):
            k = find_key(o, i)
            if k is NOKEY: return side_put(o, i, v)
            i = k
    elif is_sym(i) and core._cur is not None and not isinstance(o, Sym):
        i = concretise_all(i, 2 * len(o)) if hasattr(o, "__len__") else concretise(i)
    o[i] = v


def _insts(b):
    """an instance of a class under test (whose str() may be symbolic), or a tuple with one"""
    t = type(b)
    if t in (str, int, float, bytes): return False
    if t is tuple: return any(_insts(x) for x in b)
    return t is not type and is_instr(t) and not isinstance(b, type)


def mod(a, b):
    if core._cur is not None and isinstance(a, (str, bytes)) and (is_sym(b) or has_sym(b) or _insts(b)):
        return text.percent(a, b)
    return a % b


def fstr(*parts):
    """parts: str literals or (value, conv, spec)"""
    if core._cur is None:
        out = []
        for p in parts:
            if type(p) is tuple:
                v, c, sp = p
                if c == 114: v = repr(v)
                elif c == 115: v = str(v)
                elif c == 97: v = ascii(v)
                out.append(format(v, sp))
            else:
                out.append(p)
        return "".join(out)
    out = ""
    for p in parts:
        if type(p) is tuple:
            v, c, sp = p
            if has_sym(v) or isinstance(v, BaseException) or is_sym(sp):
                if c in (114, 97): v = text.to_repr(v)
                elif c == 115 or not is_sym(v): v = m_str(v)
                p = text.fmt(v, sp) if is_sym(v) else format(v, concretise(sp))
            else:
                if type(v) not in (str, int, float, bytes, bool, type(None)) and is_instr(type(v)):
                    v = call(type(v).__repr__ if c == 114 else type(v).__str__, v)
                    p = text.fmt(v, sp) if is_sym(v) else format(v, sp)
                else:
                    if c == 114: v = repr(v)
                    elif c == 115: v = str(v)
                    elif c == 97: v = ascii(v)
                    p = format(v, sp)
        out = out + p
    return out


def tick():
    e = core._cur
    if e is not None:
        e.tick()


def it(x):
    """loop iterable: counts steps"""
    e = core._cur
    if e is None:
        yield from x
        return
    for y in x:
        e.tick()
        yield y


def entered(name):
    e = core._cur
    if e is not None:
        e.functions.add(name)
        e.tick()


def iss(a, b):
    """a is b (singletons True/False/None)"""
    if isinstance(a, SBool) and (b is True or b is False):
        return bool(a) is b
    return a is b

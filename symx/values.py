"""Symbolic values: booleans, integers, floats, strings/bytes."""
import math
import z3
from fractions import Fraction
from . import zz
from .core import cur, Unsupported, PathAbort, EngineStop

FULL = (1 << 256) - 1


class Sym:
    __slots__ = ()
    _pt = object

    def __hash__(self):
        return hash(concretise(self))

    def __iter__(self):
        raise TypeError("'%s' object is not iterable" % self._pt.__name__)

    def __reduce_ex__(self, p):
        raise Unsupported("pickle of symbolic value")


def is_sym(x):
    return isinstance(x, Sym)


def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and type(x) in (list, tuple):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and type(x) is dict:
        return any(has_sym(y, depth - 1) for y in x.values()) or any(isinstance(y, Sym) for y in x)
    return False


# ------------------------------------------------------------------ booleans
class SBool(Sym):
    __slots__ = ("t", "lit")
    _pt = bool

    def __init__(self, t, lit=None):
        self.t, self.lit = t, lit

    def __bool__(self):
        return cur().branch(self.t, self.lit)

    def __eq__(self, o):
        if isinstance(o, SBool):
            return mkbool(self.t == o.t)
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self.t))
        return as_int(self) == o

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def _i(self):
        return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return and_(self, o)
        return self._i() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return or_(self, o)
        return self._i() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Xor(self.t, tb(o)))
        return self._i() ^ o
    __rxor__ = __xor__

    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __neg__(self): return -self._i()
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __invert__(self): return ~self._i()


def tb(x):
    """python bool / SBool -> z3 Bool"""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def mkbool(t, lit=None):
    if t is True or t is False:
        return t
    if zz.is_true(t):
        return True
    if zz.is_false(t):
        return False
    return SBool(t, lit)


def not_(x):
    if isinstance(x, SBool):
        lit = None
        if x.lit:
            lit = (x.lit[0], FULL & ~x.lit[1])
        return SBool(zz.Not(x.t), lit)
    return not x


def and_(*xs):
    ts = []
    last = None
    for x in xs:
        if isinstance(x, SBool):
            ts.append(x.t)
            last = x
        elif isinstance(x, z3.BoolRef):
            ts.append(x)
        elif not x:
            return False
    if not ts:
        return True
    if len(ts) == 1:
        return last if last is not None else mkbool(ts[0])
    return SBool(zz.And(ts))


def or_(*xs):
    ts = []
    last = None
    for x in xs:
        if isinstance(x, SBool):
            ts.append(x.t)
            last = x
        elif isinstance(x, z3.BoolRef):
            ts.append(x)
        elif x:
            return True
    if not ts:
        return False
    if len(ts) == 1:
        return last if last is not None else mkbool(ts[0])
    return SBool(zz.Or(ts))


# ------------------------------------------------------------------ integers
def bvw(n):
    return max(1, int(n).bit_length())


class SInt(Sym):
    """mathematical integer; `b` (unsigned bit-vector) and/or `t` (z3 Int)."""
    __slots__ = ("_t", "b", "parts")
    _pt = int

    def __init__(self, t=None, b=None):
        self._t, self.b = t, b

    @property
    def t(self):
        if self._t is None:
            self._t = bv2int(self.b)
        return self._t

    def _bv(self, w=None):
        if self.b is not None:
            return self.b
        return None

    def __index__(self):
        return concretise(self)

    def __int__(self):
        return concretise(self)

    def __float__(self):
        return float(concretise(self))

    def __bool__(self):
        return bool(self != 0)

    __hash__ = Sym.__hash__

    # comparison
    def _cmp(self, o, iop, bop):
        if isinstance(o, SFloat):
            return NotImplemented
        if isinstance(o, float):
            if o != o or o in (math.inf, -math.inf):
                return {"<": o == math.inf, "<=": o == math.inf, ">": o == -math.inf, ">=": o == -math.inf,
                        "==": False, "!=": True}[iop]
            if o == int(o):
                o = int(o)
            else:
                return mkbool(_rel(iop, z3.ToReal(self.t), rv(o)))
        if isinstance(o, (bool, SBool)):
            o = as_int(o)
        if isinstance(o, int):
            if self.b is not None:
                w = self.b.size()
                if o < 0:
                    return iop in (">", ">=", "!=")
                if o >= (1 << w):
                    return iop in ("<", "<=", "!=")
                return mkbool(bop(self.b, z3.BitVecVal(o, w)))
            return mkbool(_rel(iop, self.t, z3.IntVal(o)))
        if isinstance(o, SInt):
            if self.b is not None and o.b is not None:
                a, b = widen(self.b, o.b)
                return mkbool(bop(a, b))
            return mkbool(_rel(iop, self.t, o.t))
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, "==", lambda a, b: a == b)
        return False if r is NotImplemented and not isinstance(o, SFloat) else r

    def __ne__(self, o):
        r = self._cmp(o, "!=", lambda a, b: a != b)
        return True if r is NotImplemented and not isinstance(o, SFloat) else r

    def __lt__(self, o): return self._cmp(o, "<", z3.ULT)
    def __le__(self, o): return self._cmp(o, "<=", z3.ULE)
    def __gt__(self, o): return self._cmp(o, ">", z3.UGT)
    def __ge__(self, o): return self._cmp(o, ">=", z3.UGE)

    # arithmetic
    def _arith(self, o, f, rf=None):
        if isinstance(o, (bool, SBool)):
            o = as_int(o)
        if isinstance(o, int):
            return mkint(f(self.t, z3.IntVal(o)))
        if isinstance(o, SInt):
            return mkint(f(self.t, o.t))
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, float): return tofloat(self) + o
        if isinstance(o, int) and o == 0: return self
        return self._arith(o, lambda a, b: a + b)
    def __radd__(self, o):
        if isinstance(o, float): return o + tofloat(self)
        if isinstance(o, int) and o == 0: return self
        return self._arith(o, lambda a, b: b + a)
    def __sub__(self, o):
        if isinstance(o, float): return tofloat(self) - o
        return self._arith(o, lambda a, b: a - b)
    def __rsub__(self, o):
        if isinstance(o, float): return o - tofloat(self)
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, float): return tofloat(self) * o
        if isinstance(o, (str, bytes, list, tuple, bytearray, SSeq)):
            return o * concretise(self)
        return self._arith(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, float): return o * tofloat(self)
        if isinstance(o, (str, bytes, list, tuple, bytearray, SSeq)):
            return o * concretise(self)
        return self._arith(o, lambda a, b: b * a)

    def __neg__(self): return mkint(-self.t)
    def __pos__(self): return self
    def __invert__(self): return mkint(-self.t - 1)

    def __abs__(self):
        if self.b is not None: return self
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def _divmod(self, o):
        if isinstance(o, (bool, SBool)): o = as_int(o)
        if isinstance(o, SInt):
            o = concretise(o)
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if self.b is not None and o > 0 and o & (o - 1) == 0:
            k = o.bit_length() - 1
            w = self.b.size()
            if k == 0: return self, 0
            if k >= w: return 0, self
            return SInt(b=z3.Extract(w - 1, k, self.b)), SInt(b=z3.Extract(k - 1, 0, self.b))
        if o > 0:
            d = z3.IntVal(o)
            return mkint(self.t / d), mkint(self.t % d)
        d = z3.IntVal(-o)
        n = -self.t
        return mkint(n / d), mkint(-(n % d))

    def __floordiv__(self, o):
        if isinstance(o, (float, SFloat)): return tofloat(self) // o
        r = self._divmod(o)
        return r if r is NotImplemented else r[0]
    def __mod__(self, o):
        if isinstance(o, (float, SFloat)): return tofloat(self) % o
        r = self._divmod(o)
        return r if r is NotImplemented else r[1]
    def __divmod__(self, o):
        if isinstance(o, (float, SFloat)): return divmod(tofloat(self), o)
        return self._divmod(o)
    def __rfloordiv__(self, o): return o // concretise(self)
    def __rmod__(self, o): return o % concretise(self)
    def __rdivmod__(self, o): return divmod(o, concretise(self))

    def __truediv__(self, o):
        return float_div(self, o)
    def __rtruediv__(self, o):
        return float_div(o, self)

    def __pow__(self, o, m=None):
        if isinstance(o, SInt): o = concretise(o)
        if isinstance(o, int) and 0 <= o <= 4 and m is None:
            r = 1
            for _ in range(o): r = self * r
            return r
        return pow(concretise(self), o, m) if m is not None else concretise(self) ** o
    def __rpow__(self, o):
        return o ** concretise(self)

    # bits
    def _bits(self, o, f, kind):
        if isinstance(o, (bool, SBool)): o = as_int(o)
        if isinstance(o, int):
            if self.b is not None and o >= 0:
                w = max(self.b.size(), bvw(o))
                if kind == "and":
                    k = bvw(o)
                    if o == 0: return 0
                    if k < self.b.size():
                        return SInt(b=z3.simplify(z3.Extract(k - 1, 0, self.b) & z3.BitVecVal(o, k)))
                return SInt(b=z3.simplify(f(zext(self.b, w), z3.BitVecVal(o, w))))
            if kind == "and" and o >= 0 and o & (o + 1) == 0:
                return mkint(self.t % z3.IntVal(o + 1)) if o else 0
            return self._viabv(o, f)
        if isinstance(o, SInt):
            if self.b is not None and o.b is not None:
                a, b = widen(self.b, o.b)
                return SInt(b=f(a, b))
            return self._viabv(o, f)
        return NotImplemented

    def _viabv(self, o, f, w=64):
        """non-negative bounded ints as bit-vectors; requires the path to imply the bound"""
        e = cur()
        for x in (self, o):
            if isinstance(x, SInt) and x.b is None:
                if not e.branch(z3.And(x.t >= 0, x.t < (1 << 63))):
                    return f_int(concretise(self), concretise(o) if is_sym(o) else o, f)
        a = zext(self.b, w) if self.b is not None else int2bv(self.t, w)
        if isinstance(o, int):
            if o < 0:
                return f_int(concretise(self), o, f)
            b = z3.BitVecVal(o, w)
        else:
            b = zext(o.b, w) if o.b is not None else int2bv(o.t, w)
        return SInt(b=f(a, b))

    def __and__(self, o): return self._bits(o, lambda a, b: a & b, "and")
    __rand__ = __and__
    def __or__(self, o): return self._bits(o, lambda a, b: a | b, "or")
    __ror__ = __or__
    def __xor__(self, o): return self._bits(o, lambda a, b: a ^ b, "xor")
    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, SInt): o = concretise(o)
        if o < 0: raise ValueError("negative shift count")
        if o == 0: return self
        if self.b is not None:
            return SInt(b=z3.Concat(self.b, z3.BitVecVal(0, o)))
        return self * (1 << o)
    def __rlshift__(self, o): return o << concretise(self)
    def __rshift__(self, o):
        if isinstance(o, SInt): o = concretise(o)
        if o < 0: raise ValueError("negative shift count")
        return self // (1 << o)
    def __rrshift__(self, o): return o >> concretise(self)

    def bit_length(self): return concretise(self).bit_length()
    def to_bytes(self, *a, **k):
        return concretise(self).to_bytes(*a, **k)
    def is_integer(self): return True
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1

    def __str__(self): return concretise_str(int_str(self))
    def __repr__(self): return "<SInt>"
    def __format__(self, spec): return concretise_str(fmt(self, spec))
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __round__(self, n=None):
        if n is None or n >= 0: return self
        return round(concretise(self), n)


def f_int(a, b, f):
    import operator
    for op in (operator.and_, operator.or_, operator.xor):
        # identify f by its action on small constants
        if z3.simplify(f(z3.BitVecVal(12, 4), z3.BitVecVal(10, 4))).as_long() == op(12, 10):
            return op(a, b)
    raise Unsupported("bit operation")


def zext(b, w):
    s = b.size()
    return b if s >= w else z3.ZeroExt(w - s, b)


def widen(a, b):
    w = max(a.size(), b.size())
    return zext(a, w), zext(b, w)


def bv2int(b):
    return z3.BV2Int(b)


def int2bv(t, w):
    return z3.Int2BV(t, w)


def _rel(op, a, b):
    return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b,
            ">": lambda: a > b, ">=": lambda: a >= b}[op]()


def mkint(t):
    if z3.is_int_value(t):
        return t.as_long()
    s = t
    if z3.is_app(t) and t.num_args() and all(z3.is_int_value(c) for c in t.children()):
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
    return SInt(s)


def as_int(x):
    if isinstance(x, SBool):
        return x._i()
    if isinstance(x, bool):
        return int(x)
    return x


def ti(x):
    """int/SInt -> z3 Int"""
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return x._i().t
    return z3.IntVal(int(x))


# -------------------------------------------------------------------- floats
EPS = Fraction(1, 2 ** 53)
TINY = Fraction(1, 2 ** 1074)


def rv(x):
    """python number -> exact z3 Real"""
    if isinstance(x, (int, Fraction)):
        f = Fraction(x)
    else:
        f = Fraction(float(x))
    return z3.Q(f.numerator, f.denominator)


class NonFinite(Unsupported):
    """a float read from a text that turned out to be inf or nan on this path"""
    def __init__(self, f):
        super().__init__("arithmetic on inf/nan text")
        self.f = f


NFCH = sum(1 << ord(c) for c in "nNeE")      # letters of inf, nan and exponents


def nf(x):
    return x.nf if isinstance(x, SFloat) and x.nf is not None else x


def nfguard(native):
    """redo an operation natively once an operand is known to be inf or nan"""
    def deco(fn):
        def g(*a):
            try:
                return fn(*a)
            except NonFinite:
                b = [nf(x) for x in a]
                if all(x is y for x, y in zip(a, b)): raise
                if any(is_sym(x) for x in b):
                    if native is None: raise
                    b = [concretise(x) if is_sym(x) else x for x in b]
                return native(*b)
        return g
    return deco


class SFloat(Sym):
    """A finite double.  r = its exact real value; the double is only known through the rounding-error model:
    result = exact*(1+d), |d| <= 2^-53 (no overflow / denormal results inside the stated ranges), exact if the exact
    result is a small integer.  `src`: text it was read from (value then lazily derived).  `dec`=(k,n): correctly
    rounded k/10^n whose shortest repr is that decimal."""
    __slots__ = ("_r", "src", "dec", "kind", "_canon", "apx", "lazy", "nf")
    _pt = float

    def __init__(self, r=None, src=None, dec=None, apx=None, lazy=None):
        self._r, self.src, self.dec, self.apx, self.lazy = r, src, dec, apx, lazy
        self.kind = None
        self.nf = None

    def real(self):
        if self._r is None:
            if self.lazy is None:
                from . import text
                text.realise(self)
            if self._r is None:
                self._r = self.lazy()
        return self._r

    def ap(self):
        """(k, D, err, mag, cr) or None: the double is within err of k/D, |k/D| <= mag; cr: it is the double nearest to k/D"""
        if self.apx is None and self._r is None and self.lazy is None:
            from . import text
            text.realise(self)
        return self.apx

    @property
    def r(self):
        return self.real()

    __hash__ = Sym.__hash__

    def _num(self, o):
        """other operand as (z3 real, is_nan_or_inf python float or None)"""
        if isinstance(o, SFloat):
            return o.r
        if isinstance(o, (SInt,)):
            return z3.ToReal(o.t)
        if isinstance(o, SBool):
            return z3.ToReal(o._i().t)
        if isinstance(o, (int, float)):
            if isinstance(o, float) and (o != o or o in (math.inf, -math.inf)):
                raise Unsupported("arithmetic with nan/inf")
            return rv(o)
        return None

    def _cmp(self, o, op):
        if isinstance(o, float) and (o != o or math.isinf(o)):
            if o != o:
                return op == "!="
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op]
        if isinstance(o, SFloat) and op in ("==", "!="):
            if o is self:
                if self.src is not None and any(bool(ch_in(c, NFCH)) for c in self.src.cs): self.real()
                return op == "=="
            if self.src is not None and o.src is not None:
                # same text -> same double (nan excluded by the parser model)
                e = seq_eq(self.src, o.src)
                if e is True:
                    return op == "=="
                if self._r is None or o._r is None:
                    if bool(e):
                        return op == "=="
        if not isinstance(o, (SFloat, SInt, SBool, int, float)):
            return NotImplemented
        r = apx_cmp(self, o, op)
        if r is not None:
            return r
        return mkbool(_rel(op, self.r, self._num(o)))

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r
    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __bool__(self): return bool(self != 0)
    def __neg__(self):
        a = self.ap()
        return SFloat(dec=(-self.dec[0], self.dec[1]) if self.dec else None, apx=(-a[0],) + a[1:] if a else None, lazy=lambda: -self.r)
    def __pos__(self): return self
    def __abs__(self):
        a = self.ap()
        key = ("abs", (a[0] if a else self.r).get_id(), a[1] if a else 0)
        e = cur()
        hit = e.cache.get(key)
        if hit: return hit[0]
        if a is None:
            n = z3.simplify(-self.r)
            hit = e.cache.get(("abs", n.get_id(), 0))       # |-x| is |x|
            if hit: return hit[0]
            e.cache[("absn", n.get_id())] = n
        dec = apx = None
        if a and (a[4] or a[2] == 0):      # the decimal and the double have the same sign
            k = iabs(a[0])
            apx = (k,) + a[1:]
            if self.dec: dec = (k if self.dec[0] is a[0] else iabs(self.dec[0]), self.dec[1])
        res = SFloat(dec=dec, apx=apx, lazy=lambda: z3.If(self.r >= 0, self.r, -self.r))
        e.cache[key] = (res, a, self)
        return res

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0: return self
        r = apx_add(self, o, 1)
        if r is not None: return r
        x = self._num(o)
        if x is None: return NotImplemented
        return rounded("+", (self.r, x), self.r + x)
    def __radd__(self, o):
        return self.__add__(o)
    def __sub__(self, o):
        if isinstance(o, (int, float)) and o == 0: return self
        r = apx_add(self, o, -1)
        if r is not None: return r
        x = self._num(o)
        if x is None: return NotImplemented
        return rounded("-", (self.r, x), self.r - x)
    def __rsub__(self, o):
        r = -self + o if isinstance(o, (int, float, SInt)) else NotImplemented
        return r
    def __mul__(self, o):
        if isinstance(o, (int, float)) and not is_sym(o):
            if o == 1: return self
            if o == -1: return -self
        r = apx_mul(self, o)
        if r is not None: return r
        x = self._num(o)
        if x is None: return NotImplemented
        return rounded("*", (self.r, x), self.r * x)
    def __rmul__(self, o):
        return self.__mul__(o)
    def __truediv__(self, o): return float_div(self, o)
    def __rtruediv__(self, o): return float_div(o, self)

    def __divmod__(self, o): return float_divmod(self, o)
    def __floordiv__(self, o): return float_divmod(self, o)[0]
    def __mod__(self, o): return float_divmod(self, o)[1]
    def __rdivmod__(self, o): return divmod(o, concretise(self))
    def __rmod__(self, o): return o % concretise(self)
    def __rfloordiv__(self, o): return o // concretise(self)

    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o <= 4:
            if o == 0: return 1.0
            r = self
            for _ in range(o - 1): r = r * self     # libm pow differs by <1ulp: covered by an extra rounding
            if o > 1: r = rounded("pow", (self.r, z3.IntVal(o)), r.r)
            return r
        return concretise(self) ** (concretise(o) if is_sym(o) else o)
    def __rpow__(self, o): return o ** concretise(self)

    def __int__(self): return int(concretise(self))
    def __float__(self): return concretise(self)
    def __trunc__(self): return f_trunc(self)
    def __floor__(self): return mkint(z3.ToInt(self.r))
    def __ceil__(self): return mkint(-z3.ToInt(-self.r))
    def __round__(self, n=None): return f_round(self, n)
    def is_integer(self): return mkbool(z3.IsInt(self.r))
    def __str__(self):
        from . import text
        return concretise_str(text.float_repr(self))
    def __repr__(self): return "<SFloat>"
    def __format__(self, spec): return concretise_str(fmt(self, spec))


# ---- doubles that are close to a rational with an integer numerator term: everything stays linear integer arithmetic
MAXD = 10 ** 30


def ireg(t, lo, hi):
    """record bounds of an Int term on this path"""
    cur().cache[("ib", t.get_id())] = (lo, hi, t)


def ibounds(t):
    """(lo, hi) of an Int term by interval arithmetic, or None"""
    e = cur()
    key = ("ib", t.get_id())
    hit = e.cache.get(key, 0)
    if hit != 0:
        return hit and hit[:2]
    r = None
    if z3.is_int_value(t):
        r = (t.as_long(), t.as_long())
    elif z3.is_app(t):
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_BV2INT:
            r = (0, 2 ** ch[0].size() - 1)
        elif k == z3.Z3_OP_ITE:
            a, b = ibounds(ch[1]), ibounds(ch[2])
            r = a and b and (min(a[0], b[0]), max(a[1], b[1]))
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            bs = [ibounds(c) for c in ch]
            if all(bs):
                r = bs[0]
                if k == z3.Z3_OP_UMINUS: r = (-r[1], -r[0])
                for b in bs[1:]:
                    if k == z3.Z3_OP_ADD: r = (r[0] + b[0], r[1] + b[1])
                    elif k == z3.Z3_OP_SUB: r = (r[0] - b[1], r[1] - b[0])
                    else:
                        ps = [x * y for x in r for y in b]
                        r = (min(ps), max(ps))
        elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            d = ch[1].as_long()
            b = ibounds(ch[0])
            if k == z3.Z3_OP_MOD: r = (0, d - 1)
            elif b: r = (b[0] // d, b[1] // d)
    e.cache[key] = (r[0], r[1], t) if r else None
    return r


def imag(t):
    b = ibounds(t)
    return max(abs(b[0]), abs(b[1])) if b else None


def iabs(k):
    k = z3.simplify(k)
    b = ibounds(k)
    if b and b[0] >= 0: return k
    if b and b[1] <= 0: return z3.simplify(-k)
    return z3.If(k >= 0, k, -k)


def idivmod(k, w):
    """(k // w, k % w) of an Int term by a positive constant"""
    k = z3.simplify(k)
    if z3.is_int_value(k):
        q, m = divmod(k.as_long(), w)
        return z3.IntVal(q), z3.IntVal(m)
    if w == 1:
        return k, z3.IntVal(0)
    e = cur()
    key = ("idm", k.get_id(), w)
    hit = e.cache.get(key)
    if hit: return hit[0]
    q, m = z3.Int(e.newname("iq")), z3.Int(e.newname("im"))
    e.define(z3.And(k == q * w + m, m >= 0, m < w))
    b = ibounds(k)
    if b: ireg(q, b[0] // w, b[1] // w)
    ireg(m, 0, w - 1)
    e.cache[key] = ((q, m), k)
    return q, m


def apx_of(x):
    if isinstance(x, SFloat):
        return x.ap()
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int):
        return (z3.IntVal(x), 1, Fraction(0), Fraction(abs(x)), abs(x) < 2 ** 53)
    if isinstance(x, float):
        if x != x or math.isinf(x): return None
        f = Fraction(repr(x))
        if f.denominator > MAXD: return None
        return (z3.IntVal(f.numerator), f.denominator, abs(Fraction(x) - f), abs(f), True)
    if isinstance(x, SInt):
        m = imag(x.t)
        return None if m is None else (x.t, 1, Fraction(0), Fraction(m), m < 2 ** 53)
    if isinstance(x, SBool):
        return apx_of(x._i())
    return None


def _lcm(a, b):
    return a * b // math.gcd(a, b)


def apx_diff(a, b):
    """(Int term N, L): (k_a/D_a - k_b/D_b) = N/L"""
    L = _lcm(a[1], b[1])
    return z3.simplify(a[0] * (L // a[1]) - b[0] * (L // b[1])), L


def apx_cmp(x, y, op):
    a, b = apx_of(x), apx_of(y)
    if a is None or b is None: return None
    N, L = apx_diff(a, b)
    if (a[2] + b[2]) * L >= 1: return None
    r = mkbool(z3.simplify(_rel(op, N, z3.IntVal(0))))
    if (a[4] and b[4]) or a[2] == b[2] == 0:
        return r
    if bool(mkbool(z3.simplify(N == 0))):
        return None                      # equal as decimals, the doubles may differ
    return r


def apx_res(k, D, err, mag, exact, opname):
    """result of an operation: k/D within err, correctly modelled over the reals only on demand"""
    if D > MAXD: return None
    k = z3.simplify(k)
    if z3.is_int_value(k) and err == 0:
        return k.as_long() / D
    a = (k, D, err, mag, err == 0)

    def lazy():
        r = rounded(opname, (), exact())
        if not isinstance(r, SFloat): return rv(r)
        q = z3.ToReal(k) / z3.RealVal(D)
        ev = z3.Q(err.numerator, err.denominator)
        cur().define(z3.And(r.r - q <= ev, q - r.r <= ev))
        return r.r
    return SFloat(apx=a, lazy=lazy, dec=(k * 10, 1) if err == 0 and D == 1 and mag < 10 ** 14 else None)


def ulp_err(mag, exact_int):
    return Fraction(0) if exact_int else mag * EPS


def apx_add(x, y, sg):
    a, b = apx_of(x), apx_of(y)
    if a is None or b is None: return None
    L = _lcm(a[1], b[1])
    mag = a[3] + b[3]
    ints = a[2] == b[2] == 0 and L == 1 and mag < 2 ** 53
    err = a[2] + b[2]
    err += ulp_err(mag + err, ints)
    if err * 4 * L > 1 and L > 1: return None
    ka, kb = a[0] * (L // a[1]), b[0] * (L // b[1])
    return apx_res(ka + kb if sg > 0 else ka - kb, L, err, mag,
                   lambda: real_t(x) + real_t(y) if sg > 0 else real_t(x) - real_t(y), "+")


def apx_mul(x, y):
    a, b = apx_of(x), apx_of(y)
    if a is None or b is None: return None
    if z3.is_int_value(a[0]): a, b = b, a
    if not z3.is_int_value(b[0]): return None
    c = Fraction(b[0].as_long(), b[1])
    mag = a[3] * abs(c)
    ints = a[2] == b[2] == 0 and a[1] == 1 and c.denominator == 1 and mag < 2 ** 53
    err = a[2] * (abs(c) + b[2]) + a[3] * b[2]
    err += ulp_err(mag + err, ints)
    g = math.gcd(c.numerator, a[1])
    return apx_res(a[0] * (c.numerator // g), a[1] // g * c.denominator, err, mag, lambda: real_t(x) * real_t(y), "*")


def apx_div(x, y):
    """x / constant y"""
    a, b = apx_of(x), apx_of(y)
    if a is None or b is None or not z3.is_int_value(b[0]) or b[0].as_long() == 0: return None
    c = Fraction(b[0].as_long(), b[1])
    e1 = b[2] / abs(c)                       # relative error of the constant
    if e1 > Fraction(1, 4): return None
    mag = a[3] / abs(c)
    err = a[2] / abs(c) * 2 + mag * e1 * 2
    if a[2] == 0 and b[2] == 0: err = Fraction(0)
    err += ulp_err(mag + err, False)
    inv = 1 / c
    return apx_res(a[0] * inv.numerator, a[1] * inv.denominator, err, mag, lambda: real_t(x) / real_t(y), "/")


def real_t(x):
    """exact z3 Real of a number"""
    if isinstance(x, SFloat): return x.r
    if isinstance(x, SBool): x = x._i()
    if isinstance(x, SInt): return z3.ToReal(x.t)
    return rv(x)


def rounded(name, key, exact):
    """round-to-nearest result of an exact real value; hash-consed per path"""
    e = cur()
    exact = z3.simplify(exact, sort_sums=True)
    if z3.is_rational_value(exact):
        f = Fraction(exact.numerator_as_long(), exact.denominator_as_long())
        return float(f)
    k = ("fl", exact.get_id())
    hit = e.cache.get(k)
    if hit is not None:
        return hit[0]
    neg = e.cache.get(("fl", z3.simplify(-exact, sort_sums=True).get_id()))      # rounding is symmetric
    if neg is not None:
        return -neg[0]
    r = z3.Real(e.newname("fl"))
    e.define(z3.And(round_bound(r, exact)))
    e.soft.append(r == exact)
    res = SFloat(r)
    e.cache[k] = (res, exact)
    return res


def round_bound(r, exact):
    """|r - exact| <= 2^-53 |exact|, sign preserved, exact on integers below 2^53"""
    ep = z3.Q(1, 2 ** 53)
    return [z3.If(exact >= 0, z3.And(r >= exact - ep * exact, r <= exact + ep * exact),
                  z3.And(r <= exact - ep * exact, r >= exact + ep * exact))]


def exact_on_integers(r, exact, lim=2 ** 53):
    return z3.Implies(z3.And(z3.IsInt(exact), exact < lim, exact > -lim), r == exact)


def tofloat(x):
    """float(int)"""
    if isinstance(x, SFloat):
        return x
    if isinstance(x, SBool):
        x = x._i()
    if isinstance(x, SInt):
        t = x.t
        e = cur()
        k = ("i2f", t.get_id())
        hit = e.cache.get(k)
        if hit: return hit[0]
        m = imag(t)
        if m is not None and m < 2 ** 53:
            res = tofloat_exact(t, m)
            e.cache[k] = (res, t)
            return res
        # integers below 2^53 are exact
        if bool(mkbool(z3.And(t < 2 ** 53, t > -2 ** 53))):
            res = SFloat(z3.ToReal(t), dec=(t * 10, 1))
        else:
            res = rounded("i2f", (t,), z3.ToReal(t))
        e.cache[k] = (res, t)
        return res
    return float(x)


def float_div(a, b):
    if isinstance(b, (int, float)) and not is_sym(b):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        r = apx_div(a, b)
        if r is not None: return r
        if isinstance(a, SInt):
            ex = z3.ToReal(a.t) / rv(b)
        else:
            ex = a.r / rv(b)
        return rounded("/", (), ex)
    if not isinstance(b, (SInt, SFloat, SBool)):
        return NotImplemented
    bt = z3.ToReal(b.t) if isinstance(b, SInt) else (b.r if isinstance(b, SFloat) else z3.ToReal(b._i().t))
    at = a.r if isinstance(a, SFloat) else (z3.ToReal(a.t) if isinstance(a, SInt) else rv(a))
    if bool(mkbool(bt == 0)):
        raise ZeroDivisionError("division by zero")
    return rounded("/", (), at / bt)


def float_divmod(x, w):
    if is_sym(w):
        w = concretise(w)
    if not isinstance(w, (int, float)):
        return NotImplemented
    if w == 0:
        raise ZeroDivisionError("float divmod()")
    e = cur()
    if w < 0 or not float(w).is_integer():
        if w < 0:
            return divmod(concretise(x), w)
    a = x.ap()
    if a is not None and (a[1] * Fraction(w)).denominator == 1 and a[2] * a[1] * 4 < 1:
        W = int(a[1] * Fraction(w))
        q, m = idivmod(a[0], W)
        # the double and k/D agree on which multiple of w they reach, unless k/D is one and only an approximation
        if (a[4] and float(w).is_integer()) or a[2] == 0 or not bool(mkbool(z3.simplify(m == 0))):
            err = a[2]
            if not bool(x >= 0): err += Fraction(w) * EPS
            xr = lambda: x.r - z3.ToReal(q) * rv(w)
            md = SFloat(apx=(m, a[1], err, Fraction(w), err == 0), lazy=(lambda: z3.simplify(xr())) if err == a[2] else (lambda: rounded("dmm", (), xr()).r),
                        dec=(m * 10, 1) if err == 0 and a[1] == 1 else None)
            return tofloat_exact(q, a[3] / Fraction(w) + 1), md
    key = ("divmod", x.r.get_id(), w)
    hit = e.cache.get(key)
    if hit: return hit[0]
    q = z3.Int(e.newname("q"))
    m = z3.Real(e.newname("m"))
    wr = rv(w)
    if bool(x >= 0):
        e.define(z3.And(x.r == z3.ToReal(q) * wr + m, m >= 0, m < wr))
        mod = SFloat(m)
    else:
        e.define(z3.And(x.r == z3.ToReal(q) * wr + m, m >= 0, m < wr))
        # fmod result + w is rounded (may even round to w itself)
        mod = rounded("dmm", (m,), m) if not bool(mkbool(m == 0)) else SFloat(z3.RealVal(0))
    res = (tofloat_exact(q), mod)
    e.cache[key] = (res, x.r)
    return res


def tofloat_exact(t, mag=None):
    if z3.is_int_value(t): return float(t.as_long())
    return SFloat(z3.ToReal(t), dec=(t * 10, 1), apx=None if mag is None or mag >= 2 ** 53 else (t, 1, Fraction(0), Fraction(mag), True))


def f_trunc(x):
    a = x.ap()
    if a is not None:
        if a[1] == 1 and a[2] == 0: return mkint(a[0])
        if a[2] * a[1] * 2 < 1:
            if bool(x >= 0):
                q, m = idivmod(a[0], a[1])
                if a[4] or not bool(mkbool(z3.simplify(m == 0))): return mkint(q)
            else:
                q, m = idivmod(-a[0], a[1])
                if a[4] or not bool(mkbool(z3.simplify(m == 0))): return mkint(-q)
    r = x.r
    if z3.is_app_of(r, z3.Z3_OP_TO_REAL):
        return mkint(r.arg(0))
    return mkint(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))


def nearest(x, n, e=None):
    """Int k with |x*10^n - k| <= 1/2 (the tie is left open)"""
    e = e or cur()
    a = x.ap()
    if a is not None:
        T = 10 ** n
        if T % a[1] == 0 and a[2] * T * 2 < 1:
            k = z3.simplify(a[0] * (T // a[1]))
            return k
        key = ("neara", a[0].get_id(), a[1], a[2], n)
        hit = e.cache.get(key)
        if hit: return hit[0]
        k = z3.Int(e.newname("k"))
        slack = a[1] + int(2 * a[2] * a[1] * T)
        d = k * (2 * a[1]) - a[0] * (2 * T)
        e.define(z3.And(d <= slack, -d <= slack))
        margin = 2 * a[1] - slack - 1
        if margin > 0: e.soft.append(z3.And(d <= margin, -d <= margin))
        m = int(a[3] * T) + 2
        ireg(k, -m, m)
        b = ibounds(a[0])
        if b and b[0] >= 0 and a[2] * T * 2 < 1:
            ireg(k, 0, m)
            e.define(k >= 0)
        e.cache[key] = (k, a)
        return k
    key = ("near", x.r.get_id(), n)
    hit = e.cache.get(key)
    if hit: return hit[0]
    k = z3.Int(e.newname("k"))
    s = x.r * z3.RealVal(10 ** n)
    h = z3.Q(1, 2)
    e.define(z3.And(z3.ToReal(k) - s <= h, s - z3.ToReal(k) <= h))
    h = z3.Q(49, 100)
    e.soft.append(z3.And(z3.ToReal(k) - s <= h, s - z3.ToReal(k) <= h))
    e.cache[key] = (k, x.r)
    return k


def f_round(x, n):
    e = cur()
    if is_sym(n):
        n = concretise(n)
    if n is None:
        return SInt(nearest(x, 0, e))
    if n < 0:
        return round(concretise(x), n)
    x.ap()
    if x.dec and x.dec[1] <= n:
        return x
    return from_decimal(nearest(x, n, e), n)


def from_decimal(k, n):
    """the double nearest to k/10^n (k: z3 Int term), |k| < 10^15 for the repr to be that decimal"""
    e = cur()
    key = ("dec", k.get_id(), n)
    hit = e.cache.get(key)
    if hit: return hit[0]
    if z3.is_int_value(k):
        return k.as_long() / 10 ** n
    m = imag(k)
    if n == 0:
        res = tofloat_exact(k, m)
    else:
        def lazy():
            r = z3.Real(e.newname("dec"))
            ex = z3.ToReal(k) / z3.RealVal(10 ** n)
            e.define(z3.And(round_bound(r, ex) + [exact_on_integers(r, ex)]))
            e.soft.append(r == ex)
            return r
        res = SFloat(dec=(k, n), lazy=lazy, apx=None if m is None else (k, 10 ** n, Fraction(m, 10 ** n) * EPS, Fraction(m, 10 ** n), True))
    e.cache[key] = (res, k)
    return res


# ---------------------------------------------------------------- characters
class DigitCh:
    """A decimal digit character with integer value term t (0..9)."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


DIGMASK = 0
for _c in range(48, 58):
    DIGMASK |= 1 << _c


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m


_rng_cache = {}


def ranges(mask):
    r = _rng_cache.get(mask)
    if r is None:
        r = []
        i = 0
        while i < 256:
            if mask >> i & 1:
                j = i
                while j < 255 and mask >> (j + 1) & 1:
                    j += 1
                r.append((i, j))
                i = j + 1
            else:
                i += 1
        _rng_cache[mask] = r
    return r


def ch_in(c, mask, wide=None):
    """is character c in the set? -> bool or SBool.  `wide`: predicate (python function on code point) deciding
    characters >= 256, only consulted for wide characters."""
    if isinstance(c, int):
        if c < 256:
            return bool(mask >> c & 1)
        return bool(wide(c)) if wide else False
    if isinstance(c, DigitCh):
        m = (mask >> 48) & 1023
        if m == 0: return False
        if m == 1023: return True
        return mkbool(z3.Or([c.t == d for d in range(10) if m >> d & 1]))
    w = zz.width(c)
    e = cur()
    if w == 8:
        i = c.get_id()
        d = e.dom.get(i, FULL)
        mm = mask & d
        if mm == 0: return False
        if mm == d: return True
        key = (i, mm)
        hit = e.in_cache.get(key)
        if hit is not None:
            return hit[0]
        ts = []
        for lo, hi in ranges(mm):
            if lo == hi:
                ts.append(zz.Eq(c, zz.v8(lo)))
            elif lo == 0:
                ts.append(zz.Ule(c, zz.v8(hi)))
            elif hi == 255:
                ts.append(zz.Ule(zz.v8(lo), c))
            else:
                ts.append(zz.And([zz.Ule(zz.v8(lo), c), zz.Ule(c, zz.v8(hi))]))
        r = SBool(zz.Or(ts), (c, mm))
        e.in_cache[key] = (r, c)
        return r
    ts = []
    for lo, hi in ranges(mask):
        ts.append(z3.And(z3.UGE(c, z3.BitVecVal(lo, w)), z3.ULE(c, z3.BitVecVal(hi, w))))
    low = mkbool(z3.Or(ts)) if ts else False
    if wide is None:
        return low
    # decide range first; then concretise the wide character for the predicate
    if bool(mkbool(z3.ULT(c, z3.BitVecVal(256, w)))):
        return low
    return bool(wide(concretise_ch(c)))


def is_digit_ch(c):
    """certainly a decimal digit?"""
    if isinstance(c, int): return 48 <= c <= 57
    return isinstance(c, DigitCh) or ch_in(c, 1023 << 48) is True


def concretise_ch(c):
    e = cur()
    return e.concretise(lambda m: m.eval(c, model_completion=True).as_long(),
                        lambda v: c == z3.BitVecVal(v, c.size()), "non-ASCII character classification")


def ch_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(b, int):
        a, b = b, a
    if isinstance(a, int):
        if isinstance(b, DigitCh):
            return mkbool(b.t == a - 48) if 48 <= a <= 57 else False
        if a < 256:
            return ch_in(b, 1 << a)
        if zz.width(b) == 8: return False
        return mkbool(b == z3.BitVecVal(a, b.size()))
    if isinstance(a, DigitCh) and isinstance(b, DigitCh):
        if zz.ident(a.t, b.t): return True
        return mkbool(a.t == b.t)
    if isinstance(a, DigitCh): a, b = b, a
    if isinstance(b, DigitCh):
        return mkbool(z3.Or([z3.And(b.t == d, a == z3.BitVecVal(48 + d, a.size())) for d in range(10)]))
    if zz.ident(a, b): return True
    a, b = widen(a, b)
    return mkbool(a == b)


def ch_bv(c, w=8):
    if isinstance(c, int):
        return z3.BitVecVal(c, max(w, 8 if c < 256 else 21))
    if isinstance(c, DigitCh):
        t = z3.BitVecVal(48, 8)
        for d in range(1, 10):
            t = z3.If(c.t == d, z3.BitVecVal(48 + d, 8), t)
        return t
    return c


def ch_digit(c):
    """Int value of a digit character (meaningful only if it is one)"""
    if isinstance(c, int):
        return z3.IntVal(c - 48)
    if isinstance(c, DigitCh):
        return c.t
    e = cur()
    key = ("dig", c.get_id())
    hit = e.term_cache.get(key)
    if hit: return hit[0]
    t = z3.IntVal(0)
    for d in range(1, 10):
        t = z3.If(c == z3.BitVecVal(48 + d, c.size()), z3.IntVal(d), t)
    e.term_cache[key] = (t, c)
    return t


def ch_conc(c, m):
    if isinstance(c, int): return c
    if isinstance(c, DigitCh): return 48 + m.eval(c.t, model_completion=True).as_long()
    return m.eval(c, model_completion=True).as_long()


class SSeq(Sym):
    """common part of symbolic str and bytes: concrete length, items int | BV8 | BV21 | DigitCh"""
    __slots__ = ("cs",)


def seq_eq(a, b):
    """equality of two str-likes (or two bytes-likes), bool or SBool"""
    x, y = items(a), items(b)
    if len(x) != len(y):
        return False
    ts = []
    one = None
    for p, q in zip(x, y):
        r = ch_eq(p, q)
        if r is False:
            return False
        if r is not True:
            ts.append(r.t)
            one = r
    if not ts: return True
    if len(ts) == 1: return one
    e = cur()
    key = tuple([t.get_id() for t in ts])
    hit = e.and_cache.get(key)
    if hit is None:
        hit = e.and_cache[key] = (SBool(zz.And(ts)), ts)
    return hit[0]


def items(x):
    if isinstance(x, SSeq):
        return x.cs
    if isinstance(x, str):
        return [ord(c) for c in x]
    return list(x)


# -------------------------------------------------------------- concretising
def conc(x, m):
    """concrete value of a (container of) symbolic value(s) in model m"""
    from . import dt, strs
    if isinstance(x, SBool):
        return zz.holds(m, x.t)
    if getattr(x, "op", None) is not None and isinstance(x, Sym) and hasattr(x, "fs"):
        return cur().icp.value(x)
    if isinstance(x, SInt):
        if x.b is not None:
            return m.eval(x.b, model_completion=True).as_long()
        return m.eval(x.t, model_completion=True).as_long()
    if isinstance(x, SFloat):
        if x._r is None and x.src is not None and x.apx is None:
            return float(conc(x.src, m))
        if x.dec is not None:
            k = m.eval(x.dec[0], model_completion=True).as_long()
            return k / 10 ** x.dec[1]
        if x.apx is not None:
            return m.eval(x.apx[0], model_completion=True).as_long() / x.apx[1]
        v = m.eval(x.r, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if isinstance(x, strs.SStr):
        return "".join(chr(ch_conc(c, m)) for c in x.cs)
    if isinstance(x, strs.SBytes):
        return bytes(ch_conc(c, m) for c in x.cs)
    if isinstance(x, strs.SByteArray):
        return bytearray(conc(x.v, m) if is_sym(x.v) else x.v)
    if isinstance(x, dt.SDT):
        return x.conc(m)
    if isinstance(x, list):
        return [conc(y, m) for y in x]
    if isinstance(x, tuple):
        return tuple(conc(y, m) for y in x)
    if isinstance(x, dict):
        return {conc(k, m): conc(v, m) for k, v in x.items()}
    return x


def eq_concrete(x, v):
    """z3 Bool: symbolic x equals concrete v"""
    from . import dt, strs
    if isinstance(x, SBool):
        return x.t if v else z3.Not(x.t)
    if isinstance(x, SInt):
        return tb(x == v)
    if isinstance(x, SFloat):
        return x.r == rv(v)
    if isinstance(x, (strs.SStr, strs.SBytes)):
        r = seq_eq(x, v)
        return True if r is True else tb(r)
    if isinstance(x, strs.SByteArray):
        r = seq_eq(x.v, bytes(v))
        return True if r is True else tb(r)
    if isinstance(x, dt.SDT):
        return x.eq_concrete(v)
    raise Unsupported("concretise %s" % type(x).__name__)


def concretise(x, what=None):
    """fork over the concrete values of x (bounded; the rest is recorded as a cut)"""
    if not isinstance(x, Sym):
        if type(x) in (list, tuple) and has_sym(x):
            return type(x)(concretise(y, what) for y in x)
        if type(x) is dict and has_sym(x):
            return {k: concretise(y, what) for k, y in x.items()}
        return x
    e = cur()
    if e is None:
        raise Unsupported("concretise outside exploration")
    if isinstance(x, SFloat):
        a = x.ap()
        if x.dec is None and a is not None and a[4]:
            return e.concretise(lambda m: conc(x, m), lambda v: a[0] == round(Fraction(v) * a[1]), what or "float value")
        if x.dec is None:
            r = x.r

            def ev(m):
                v = m.eval(r, model_completion=True)
                if z3.is_algebraic_value(v): v = v.approx(30)
                return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            return e.concretise(ev, lambda v: eq_concrete(x, v), what or "float value")
        return e.concretise(lambda m: conc(x, m), lambda v: x.dec[0] == round(Fraction(v) * 10 ** x.dec[1]), what or "float value")
    return e.concretise(lambda m: conc(x, m), lambda v: eq_concrete(x, v), what or "%s value" % x._pt.__name__)


def concretise_str(x):
    return concretise(x, "text passed to native code") if is_sym(x) else x


def int_str(x):
    from . import text
    return text.int_str(x)


def fmt(x, spec):
    from . import text
    return text.fmt(x, spec)


f_trunc = nfguard(int)(f_trunc)
f_round = nfguard(round)(f_round)
float_div = nfguard(lambda a, b: a / b)(float_div)
float_divmod = nfguard(divmod)(float_divmod)


def _guard():
    import operator as op
    for n, f in dict(__add__=op.add, __sub__=op.sub, __mul__=op.mul, __neg__=op.neg, __abs__=abs, __bool__=bool, __floor__=math.floor,
                     __ceil__=math.ceil, __lt__=op.lt, __le__=op.le, __gt__=op.gt, __ge__=op.ge, __eq__=op.eq, __ne__=op.ne,
                     __pow__=op.pow, is_integer=float.is_integer, __format__=format, __rsub__=lambda a, b: b - a,
                     __radd__=lambda a, b: b + a, __rmul__=lambda a, b: b * a).items():
        setattr(SFloat, n, nfguard(f)(SFloat.__dict__[n]))


_guard()

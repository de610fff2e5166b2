"""What a harness sees: `S` (symbolic run) or `NativeS` (replay on the uninstrumented code).  Same interface."""
import datetime as D
import importlib
import sys
import z3
from . import core, state, values as V, strs, dt
from .core import cur, PathAbort
from .values import SInt, SBool, SFloat, SSeq, DigitCh, is_sym, and_, or_, not_, tb, mkbool, mask_of, FULL, seq_eq


def charset(*parts):
    """mask from characters, (lo,hi) ranges or masks"""
    m = 0
    for p in parts:
        if isinstance(p, int):
            m |= p
        elif isinstance(p, tuple):
            for c in range(ord(p[0]) if isinstance(p[0], str) else p[0], (ord(p[1]) if isinstance(p[1], str) else p[1]) + 1):
                m |= 1 << c
        else:
            m |= mask_of(p)
    return m


PRINT = charset((32, 126))
ASCII = charset((0, 127))
LATIN = FULL
FIELD = PRINT & ~mask_of(",*$")          # a payload field's characters
ALNUM = charset(("0", "9"), ("A", "Z"), ("a", "z"))
DIGITS = charset(("0", "9"))
BYTES = FULL


class CheckFailed(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


class WorkExceeded(BaseException):
    pass


class S:
    """symbolic side"""
    native = False

    def __init__(self, e, params):
        self.e, self.p = e, params
        e.math_stub = None
        e.now_hook = None
        e.log_hook = None
        self.logged = []
        e.log_hook = lambda lvl, a: self.logged.append((lvl, a))

    def mod(self, name):
        return importlib.import_module("sx_pynmeagps" + ("." + name if name else ""))

    # -- inputs
    def _chars(self, name, n, mask, wide=False):
        cs = []
        for i in range(n):
            k = (name, i, wide)
            c = self.e.term_cache.get(k)
            if c is None:
                c = self.e.term_cache[k] = z3.BitVec("%s[%d]" % (name, i), 21 if wide else 8)
            if wide:
                # any code point except surrogates
                self.e.define(z3.And(z3.ULE(c, 0x10FFFF), z3.Not(z3.And(z3.UGE(c, 0xD800), z3.ULE(c, 0xDFFF)))))
            elif mask != FULL:
                r = V.ch_in(c, mask)
                if r is not True:
                    self.e.define(tb(r))
                self.e.dom[c.get_id()] = mask
                self.e.keep.append(c) if c.get_id() not in self.e.kept else None
                self.e.kept.add(c.get_id())
            cs.append(c)
        return cs

    def _reg(self, name, x):
        assert name not in self.e.inputs, name
        self.e.inputs[name] = ("x", x)
        return x

    def str(self, name, n, mask=FIELD, wide=False):
        return self._reg(name, strs.mkstr(self._chars(name, n, mask, wide)))

    def bytes(self, name, n, mask=BYTES):
        return self._reg(name, strs.mkbytes(self._chars(name, n, mask)))

    def digits(self, name, n):
        cs = []
        for i in range(n):
            t = z3.Int("%s[%d]" % (name, i))
            self.e.define(z3.And(t >= 0, t <= 9))
            V.ireg(t, 0, 9)
            cs.append(DigitCh(t))
        return self._reg(name, strs.mkstr(cs))

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if lo is not None: self.e.define(t >= lo)
        if hi is not None: self.e.define(t <= hi)
        if lo is not None and hi is not None: V.ireg(t, lo, hi)
        return self._reg(name, SInt(t))

    def bits(self, name, w):
        return self._reg(name, SInt(b=z3.BitVec(name, w)))

    def real(self, name, lo, hi):
        """any real in [lo, hi]: a superset of the doubles there"""
        t = z3.Real(name)
        self.e.define(z3.And(t >= V.rv(lo), t <= V.rv(hi)))
        f = SFloat(t)
        self.e.inputs[name] = ("float", f)
        return f

    def decimal(self, name, lo, hi, n):
        """the double nearest to k/10^n, lo <= k <= hi (|k| < 10^15)"""
        k = z3.Int(name)
        self.e.define(z3.And(k >= lo, k <= hi))
        V.ireg(k, lo, hi)
        return self._reg(name, V.from_decimal(k, n))

    def dyadic(self, name, lo, hi, b):
        """any multiple of 2^-b in [lo, hi] (|lo|, |hi| < 256): with b = 52 every double of magnitude 1 or more there"""
        k = z3.Int(name)
        D = 2 ** b
        self.e.define(z3.And(k >= lo * D, k <= hi * D))
        V.ireg(k, lo * D, hi * D)
        m = V.Fraction(max(abs(lo), abs(hi)))
        # above 2^(53-b) a multiple of 2^-b need not be a double: then the double nearest to it
        err = V.Fraction(0) if m * D <= 2 ** 53 else m * V.EPS
        f = SFloat(apx=(k, D, err, m, True), lazy=lambda: z3.ToReal(k) / z3.RealVal(D))
        return self._reg(name, f)

    def bool(self, name):
        return self._reg(name, bool(SBool(z3.Bool(name))))

    def pick(self, name, options):
        i = self.e.pick(len(options))
        self.e.inputs[name] = ("pick", i)
        return options[i]

    def length(self, name, lo, hi):
        return self.pick(name, list(range(lo, hi + 1)))

    # -- logic without forking
    def all(self, *xs): return and_(*_flat(xs))
    def any(self, *xs): return or_(*_flat(xs))
    def no(self, x): return not_(x)
    def implies(self, a, b): return or_(not_(a), b)

    def ite(self, c, a, b):
        if isinstance(c, SBool):
            if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool):
                return V.mkint(z3.If(c.t, V.ti(a), V.ti(b)))
            return a if bool(c) else b
        return a if c else b

    def eq(self, a, b):
        return deep_eq(a, b)

    def assume(self, c):
        if isinstance(c, SBool): c = c.t
        self.e.assume(c if not isinstance(c, bool) else c)

    def fork(self, c):
        return bool(c)

    # -- verdicts
    def check(self, c, label, known=()):
        if isinstance(c, SBool): c = c.t
        elif not isinstance(c, bool): c = bool(c)
        self.e.check(c, label)

    def fail(self, label):
        self.e.check(False, label)

    def observe(self, *xs):
        self.e.obs.extend(xs)

    def near(self, a, b, tol):
        """|a-b| <= tol for floats / ints (tol python float)"""
        p, q = apx_of(a), apx_of(b)
        if p is not None and q is not None:
            N, L = V.apx_diff(p, q)
            T = (V.Fraction(tol) - p[2] - q[2]) * L
            if p[2] + q[2] == 0 or tol == 0 and p[4] and q[4]: T = V.Fraction(tol) * L
            if T >= 0:
                return mkbool(z3.simplify(z3.And(N <= int(T), -N <= int(T))))
        x, y = real_of(a), real_of(b)
        t = V.rv(tol)
        return mkbool(z3.simplify(z3.And(x - y <= t, y - x <= t)))

    def le(self, a, b, tol=0):
        p, q = apx_of(a), apx_of(b)
        if p is not None and q is not None:
            N, L = V.apx_diff(p, q)
            T = (V.Fraction(tol) - p[2] - q[2]) * L
            if p[2] + q[2] == 0 or tol == 0 and p[4] and q[4]: T = V.Fraction(tol) * L
            if T >= 0:
                return mkbool(z3.simplify(N <= int(T)))
        return mkbool(z3.simplify(real_of(a) <= real_of(b) + V.rv(tol)))

    def hexval(self, ch):
        """value of one hex digit character, 255 if it is none"""
        c = V.items(ch)[0]
        if isinstance(c, int): return int(chr(c), 16) if chr(c) in "0123456789abcdefABCDEF" else 255
        if isinstance(c, DigitCh): c = V.ch_bv(c)
        key = ("hexval", c.get_id())
        hit = self.e.term_cache.get(key)
        if hit: return hit[0]
        r = V.ch_in(c, DIGITS)
        t = z3.If(tb(V.ch_in(c, charset("09", ("0", "9")))), c - 48, z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), c - 55, z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 102)), c - 87, z3.BitVecVal(255, 8))))
        v = SInt(b=t)
        self.e.term_cache[key] = (v, c)
        return v

    def num(self, chars):
        """integer value of a string of digits"""
        v = z3.IntVal(0)
        for c in V.items(chars):
            v = v * 10 + V.ch_digit(c)
        return V.mkint(z3.simplify(v))

    def ratio(self, k, n):
        """exact rational k/n (not a float): only for near/le"""
        return Exact(kd=(V.ti(k), n))

    def type(self, x):
        return x._pt if isinstance(x, V.Sym) else type(x)

    # -- environment
    def now(self, value):
        self.e.now_hook = lambda name, *a, **k: value if name != "today" else value.date()

    def math(self, f):
        self.e.math_stub = f

    def trig(self):
        """sin, cos, sqrt ... as functions known only by their contract (symx/trig.py)"""
        from .trig import Trig
        self.e.math_stub = Trig(self.e)

    def icp(self, order=5):
        """sin, cos, sqrt ... by the branch-and-prune decision procedure (symx/icp.py): inputs by `ireal`, verdicts by `decide`"""
        from . import icp
        self.order = order
        icp.Graph(self.e)

    def ireal(self, name, lo, hi, weight=1.0):
        n = self.e.icp.var(name, float(lo), float(hi))
        self.e.icp_weight[name] = weight
        return self._reg(name, n)

    def decide(self, label, near=(), le=(), defined=(), raises=True):
        """all |a - b| <= tol, a <= b + tol and the given values defined, for every value of the `ireal` inputs on this path"""
        import time
        import numpy as np
        from . import icp
        e, g = self.e, self.e.icp
        wants = [("near", a, b, t) for a, b, t in near] + [("le", a, b, t) for a, b, t in le] + [("defined", a, None, 0) for a in defined]
        e.path_seen_check = True
        e.checks_total += len(wants)
        e.labels[label] = e.labels.get(label, 0) + 1
        if any(not isinstance(x, (icp.Node, int, float)) or isinstance(x, bool) for w in wants for x in w[1:3] if x is not None):
            return e.check(False, label)
        wants = [(k, g.node(a), None if b is None else g.node(b), t) for k, a, b, t in wants]
        t0 = time.time()
        pr = icp.Problem(g, wants, order=self.order, raises=raises, max_time=max(5, min(300, e.max_time - (t0 - e.t0))))
        st, x = pr.solve(np.random.default_rng(1))
        e.icp_boxes += pr.boxes
        e.queries += 1
        e.solver_time += time.time() - t0
        if st == "fails":
            e.candidates.append((label, [x], "branch and prune: point"))
            raise PathAbort("check failed")
        if st == "unknown": e.lost("branch and prune on '%s': %s" % (label, x))

    def compress(self, data, fmt):
        """gzip / zlib / deflate form (one stored block) of bytes"""
        from . import zl
        return strs.mkbytes(zl.stored(list(V.items(data)), fmt))

    def fresh(self):
        """module state as after import"""
        state.restore()
        self.e.memo.clear()
        self.e.symkeys.clear()

    def log_count(self):
        """messages logged at warning level or above so far (starts counting at the first call)"""
        n = 0
        for name, a in self.logged:
            if name in ("warning", "warn", "error", "exception", "critical", "fatal") or (name == "log" and int(a[0]) >= 30): n += 1
        return n

    def work_limit(self, n, label):
        self.e.tick_limit = self.e.ticks + n
        self.e.work_label = label

    def work_done(self):
        self.e.work_label = None
        self.e.tick_limit = self.e.default_tick_limit + self.e.ticks

    def evaluate(self, text, **ns):
        """eval() of an expression whose symbolic characters are (mostly) inside string literals"""
        cs = list(V.items(text))
        isq = lambda c, v: V.ch_eq(c, v)
        ns = dict(ns)
        src, i, n = "", 0, len(cs)
        while i < n:
            c = cs[i]
            if not isinstance(c, int):
                c = ord(V.concretise(strs.mkstr([c])))
                cs[i] = c
            if c not in (34, 39):
                src += chr(c)
                i += 1
                continue
            q, out = c, []
            i += 1
            isb = src[-1:] in "bB" and src[-1:] != "" and not src[-2:-1].isalnum() and src[-2:-1] != "_"
            while True:
                if i >= n: raise SyntaxError("unterminated string literal")
                c = cs[i]
                if bool(isq(c, q)):
                    i += 1
                    break
                if bool(isq(c, 10)): raise SyntaxError("unterminated string literal")
                if not bool(isq(c, 92)):
                    out.append(c)
                    i += 1
                    continue
                if i + 1 >= n: raise SyntaxError("unterminated string literal")
                c = cs[i + 1]
                i += 2
                for a, b in ((92, 92), (39, 39), (34, 34), (110, 10), (114, 13), (116, 9), (97, 7), (98, 8), (102, 12), (118, 11)):
                    if bool(isq(c, a)):
                        out.append(b)
                        break
                else:
                    w = {120: 2, 117: 4, 85: 8}.get(c if isinstance(c, int) else ord(V.concretise(strs.mkstr([c]))))
                    if w is None:       # octal, named, or an unknown escape (kept as it is): let Python tell
                        rest = V.concretise(strs.mkstr(cs[i - 2:i + 20]))
                        m = __import__("re").match(r"\\([0-7]{1,3}|N\{[^}]*\}|.)", rest, 16)
                        if m is None: raise SyntaxError("bad escape")
                        out += [ord(x) for x in eval("'" + m.group(0) + "'")]
                        i += len(m.group(0)) - 2
                        continue
                    h = cs[i:i + w]
                    if len(h) < w: raise SyntaxError("truncated escape")
                    i += w
                    if w == 2 and any(not isinstance(x, int) for x in h):
                        a, b = [self.hexval(strs.mkstr([x])) for x in h]
                        if bool(or_(a == 255, b == 255)): raise SyntaxError("bad escape")
                        g = lambda v: z3.BitVecVal(v, 8) if isinstance(v, int) else v.b
                        out.append(z3.simplify(g(a) * 16 + g(b)))
                    else:
                        out.append(int(V.concretise(strs.mkstr(h)), 16))
            k = "_lit%d_" % len(ns)
            ns[k] = strs.mkbytes(out) if isb else strs.mkstr(out)
            if isb: src = src[:-1]
            src += " " + k + " "
        return eval(compile(src, "<evaluate>", "eval"), {"__builtins__": {"set": set, "frozenset": frozenset, "dict": dict, "list": list, "tuple": tuple, "str": str, "int": int, "float": float, "bytes": bytes}}, ns)

    def conc(self, x):
        return V.concretise(x)

    def concrete_text(self, x):
        return V.concretise(x)


class Exact:
    """exact rational: kd = (Int term, denominator) if it has that form, else a z3 Real"""
    def __init__(self, r=None, kd=None): self._r, self.kd = r, kd

    @property
    def r(self):
        if self._r is None: self._r = z3.ToReal(self.kd[0]) / z3.RealVal(self.kd[1])
        return self._r

    def _bin(self, o, sg):
        x = kd_of(o)
        if self.kd and x:
            L = V._lcm(self.kd[1], x[1])
            return Exact(kd=(z3.simplify(self.kd[0] * (L // self.kd[1]) + sg * x[0] * (L // x[1])), L))
        return Exact(self.r + sg * real_of(o))
    def __add__(self, o): return self._bin(o, 1)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, -1)
    def __rsub__(self, o): return (-self)._bin(o, 1)
    def __neg__(self): return Exact(kd=(z3.simplify(-self.kd[0]), self.kd[1])) if self.kd else Exact(-self.r)

    def __mul__(self, o):
        x = kd_of(o)
        if self.kd and x and z3.is_int_value(x[0]): return Exact(kd=(z3.simplify(self.kd[0] * x[0]), self.kd[1] * x[1]))
        return Exact(self.r * real_of(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if self.kd and isinstance(o, int) and o > 0: return Exact(kd=(self.kd[0], self.kd[1] * o))
        return Exact(self.r / real_of(o))


def kd_of(x):
    """exact (k, D) of a number, or None"""
    if isinstance(x, Exact): return x.kd
    if isinstance(x, (SInt, SBool)): return V.ti(x), 1
    if isinstance(x, (int, float)):
        f = V.Fraction(x)
        return (z3.IntVal(f.numerator), f.denominator)
    return None


def apx_of(x):
    if isinstance(x, Exact): return x.kd and (x.kd[0], x.kd[1], V.Fraction(0), None, True)
    if isinstance(x, (SInt, SBool)): return (V.ti(x), 1, V.Fraction(0), None, True)
    return V.apx_of(x)


def real_of(x):
    if isinstance(x, Exact): return x.r
    if isinstance(x, SFloat): return x.r
    if isinstance(x, (SInt, SBool)): return z3.ToReal(V.ti(x))
    return V.rv(x)


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
            yield from _flat(x)
        else:
            yield x


def deep_eq(a, b):
    """equality of values and containers, type-strict, no forks: bool or SBool"""
    if isinstance(a, V.Sym) or isinstance(b, V.Sym):
        ta = a._pt if isinstance(a, V.Sym) else type(a)
        tbb = b._pt if isinstance(b, V.Sym) else type(b)
        if ta is not tbb:
            return False
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        if len(a) != len(b): return False
        return and_(*[deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        if list(a) != list(b): return False
        return and_(*[deep_eq(a[k], b[k]) for k in a])
    if isinstance(a, float) and a != a and b != b:
        return True
    return a == b


# ------------------------------------------------------------------- native
def _first(mask):
    for c in "A0a" + "".join(map(chr, range(256))):
        if mask >> ord(c) & 1: return c


class NativeS:
    native = True

    def __init__(self, inputs, params, line_budget=None):
        self.inputs, self.p = inputs, params
        self.failed = []
        self.obs = []
        self.checks = 0
        self.logged = []
        self.restore = []
        self.patched = []
        self.limited = None
        self._trace = None
        self.defaults = 0

    def mod(self, name):
        return importlib.import_module("pynmeagps" + ("." + name if name else ""))

    def _in(self, name, default):
        """an input of the solver's model (an input the symbolic path never reached: any value of its domain)"""
        if name not in self.inputs:
            self.defaults += 1
            self.inputs[name] = default()
        return self.inputs[name]

    def str(self, name, n, mask=FIELD, wide=False):
        return self._in(name, lambda: _first(mask) * n)

    def bytes(self, name, n, mask=BYTES):
        return self._in(name, lambda: (_first(mask) * n).encode("latin-1"))

    def digits(self, name, n): return self._in(name, lambda: "0" * (n - 1) + "1" if n else "")
    def int(self, name, lo=None, hi=None): return self._in(name, lambda: lo if lo is not None else hi if hi is not None else 0)
    def bits(self, name, w): return self._in(name, lambda: 0)

    def real(self, name, lo, hi):
        return min(max(self._in(name, lambda: lo), lo), hi)

    def dyadic(self, name, lo, hi, b):
        return self._in(name, lambda: float(lo))

    def decimal(self, name, lo, hi, n): return self._in(name, lambda: lo / 10 ** n)
    def bool(self, name): return self._in(name, lambda: False)
    def pick(self, name, options): return options[self._in(name, lambda: 0)]
    def length(self, name, lo, hi): return list(range(lo, hi + 1))[self._in(name, lambda: 0)]

    def all(self, *xs): return all(_flat(xs))
    def any(self, *xs): return any(_flat(xs))
    def no(self, x): return not x
    def implies(self, a, b): return (not a) or b
    def ite(self, c, a, b): return a if c else b
    def eq(self, a, b): return deep_eq(a, b)

    def assume(self, c):
        if not c: raise AssumeFailed()

    def fork(self, c): return bool(c)

    def check(self, c, label, known=()):
        self.checks += 1
        if not c:
            self.failed.append(label)
            raise CheckFailed(label)

    def fail(self, label):
        self.check(False, label)

    def observe(self, *xs): self.obs.extend(xs)

    def near(self, a, b, tol):
        from fractions import Fraction as F
        try:
            return abs(F(a) - F(b)) <= F(tol)
        except (ValueError, OverflowError):
            return False

    def le(self, a, b, tol=0):
        from fractions import Fraction as F
        try:
            return F(a) <= F(b) + F(tol)
        except (ValueError, OverflowError):
            return a <= b

    def num(self, chars): return int(chars) if chars else 0
    def hexval(self, ch): return int(ch, 16) if ch in "0123456789abcdefABCDEF" else 255

    def ratio(self, k, n):
        from fractions import Fraction as F
        return F(k) / F(n)

    def type(self, x): return type(x)

    def now(self, value):
        class FakeDT(D.datetime):
            @classmethod
            def now(cls, tz=None): return value
            @classmethod
            def utcnow(cls): return value.replace(tzinfo=None)
        for n, m in list(sys.modules.items()):
            if n.startswith("pynmeagps") and m is not None and getattr(m, "datetime", None) is D.datetime:
                self.restore.append((m, "datetime", m.datetime))
                m.datetime = FakeDT
                self.patched.append((m, "datetime", FakeDT))

    def math(self, f): pass
    def trig(self): pass
    def icp(self, order=5): pass
    def ireal(self, name, lo, hi, weight=1.0): return self._in(name, lambda: (lo + hi) / 2)

    def decide(self, label, near=(), le=(), defined=(), raises=True):
        num = lambda x: type(x) in (int, float) and x - x == 0
        self.check(all(num(a) and num(b) and self.near(a, b, t) for a, b, t in near) and all(num(a) and num(b) and self.le(a, b, t) for a, b, t in le)
                   and all(num(a) for a in defined), label)

    def compress(self, data, fmt):
        from .zl import stored
        return bytes(stored(list(data), fmt))

    def fresh(self):
        state.restore()
        for m, n, v in self.patched: setattr(m, n, v)

    def log_count(self):
        import logging
        if not hasattr(self, "_h"):
            class H(logging.Handler):
                def emit(h, rec): self.logged.append(rec)
            self._h = H(logging.WARNING)
            logging.getLogger().addHandler(self._h)
        return len(self.logged)

    def work_limit(self, n, label):
        """line budget of the real code (package files only), scaled: one engine step is about one line"""
        budget = [n * 40]
        outer = self
        self.limited = label

        def tr(frame, ev, arg):
            fn = frame.f_code.co_filename
            if "pynmeagps" not in fn or "symx" in fn:
                return None

            def loc(frame, ev, arg):
                budget[0] -= 1
                if budget[0] < 0:
                    sys.settrace(None)
                    outer.failed.append(label)
                    raise WorkExceeded(label)
                return loc
            return loc
        sys.settrace(tr)

    def work_done(self):
        self.limited = None
        sys.settrace(None)

    def evaluate(self, text, **ns):
        return eval(compile(text, "<evaluate>", "eval"), {}, ns)

    def conc(self, x): return x
    def concrete_text(self, x): return x

    def close(self):
        sys.settrace(None)
        if hasattr(self, "_h"):
            import logging
            logging.getLogger().removeHandler(self._h)
        for m, n, v in self.restore:
            setattr(m, n, v)

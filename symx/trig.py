"""Transcendental functions as uninterpreted functions under a contract: what IEEE libm's guarantee (range, parity, values at 0 and 1,
sign on the first periods, inverse pairs within rounding, same argument -> same result)."""
import math
import z3
from . import values as V
from .core import cur
from .values import SFloat, SInt, SBool, mkbool, rv, tofloat


def _r(x):
    return x.r if isinstance(x, SFloat) else rv(x)


class Trig:
    def __init__(self, e):
        self.e = e
        self.calls = {}      # name -> [(args reals, result SFloat, args)]

    def fresh(self, name, lo, hi):
        t = z3.Real(self.e.newname(name))
        c = []
        if lo is not None: c.append(t >= rv(lo))
        if hi is not None: c.append(t <= rv(hi))
        if c: self.e.define(z3.And(c))
        return SFloat(t)

    def known(self, name, rs):
        """(result, sign) of an earlier call with the same / negated single argument"""
        for a, res, _ in self.calls.get(name, ()):
            if all(z3.is_rational_value(d) and d.as_fraction() == 0 for d in [z3.simplify(x - y) for x, y in zip(a, rs)]):
                return res, 1
            if len(rs) == 1:
                d = z3.simplify(a[0] + rs[0])
                if z3.is_rational_value(d) and d.as_fraction() == 0: return res, -1
        return None

    def __call__(self, name, *args):
        args = [tofloat(x) if isinstance(x, (SInt, SBool)) else float(x) if isinstance(x, int) else x for x in args]
        if not any(isinstance(x, SFloat) for x in args):
            return getattr(math, name)(*args)
        if name == "radians": return args[0] * (math.pi / 180)
        if name == "degrees": return args[0] * (180 / math.pi)
        f = getattr(self, "f_" + name, None)
        if f is None: raise V.Unsupported("math.%s" % name)
        return f(*args)

    def put(self, name, rs, res, parity=0):
        """congruence with earlier calls"""
        for a, old, _ in self.calls.get(name, ()):
            self.e.define(z3.Implies(z3.And([x == y for x, y in zip(a, rs)]), old.r == res.r))
            if parity and len(rs) == 1: self.e.define(z3.Implies(a[0] == -rs[0], res.r == (old.r if parity > 0 else -old.r)))
        self.calls.setdefault(name, []).append((rs, res, None))
        return res

    def f_cos(self, x):
        rs = [_r(x)]
        k = self.known("cos", rs)
        if k: return k[0]
        c = self.fresh("cos", -1, 1)
        h, P = rv(math.pi / 2), rv(math.pi + 1e-12)
        self.e.define(z3.And(z3.Implies(rs[0] == 0, c.r == 1), z3.Implies(z3.And(rs[0] <= h, rs[0] >= -h), c.r >= 0),
                             z3.Implies(z3.And(c.r >= rv(1 - 1e-15), rs[0] <= P, rs[0] >= -P), z3.And(rs[0] <= rv(6e-8), rs[0] >= rv(-6e-8))),
                             z3.Implies(z3.And(c.r <= rv(1e-15 - 1), rs[0] <= P, rs[0] >= -P), z3.Or(rs[0] <= rv(6e-8 - math.pi), rs[0] >= rv(math.pi - 6e-8)))))
        return self.put("cos", rs, c, 1)

    def f_sin(self, x):
        rs = [_r(x)]
        k = self.known("sin", rs)
        if k: return k[0] if k[1] > 0 else -k[0]
        s = self.fresh("sin", -1, 1)
        p = rv(math.pi)
        self.e.define(z3.And(z3.Implies(rs[0] == 0, s.r == 0), z3.Implies(z3.And(rs[0] > 0, rs[0] <= p), s.r > 0), z3.Implies(z3.And(rs[0] < 0, rs[0] >= -p), s.r < 0)))
        return self.put("sin", rs, s, -1)

    def inverse(self, name, fwd, x, lo, hi):
        rs = [_r(x)]
        if bool(mkbool(z3.simplify(z3.Or(rs[0] > 1, rs[0] < -1)))): raise ValueError("math domain error")
        k = self.known(name, rs)
        if k and k[1] > 0: return k[0]
        r = self.fresh(name, lo, hi)
        if name == "acos":
            self.e.define(z3.And(z3.Implies(rs[0] == 1, r.r == 0), z3.Implies(rs[0] == -1, r.r == rv(math.pi))))
            # acos(cos y) is |y| to within the conditioning of acos near 1
            for a, res, _ in self.calls.get("cos", ()):
                y, d = a[0], rs[0] - res.r
                ab = z3.If(y >= 0, y, -y)
                self.e.define(z3.Implies(z3.And(ab <= rv(math.pi + 1e-12), d <= rv(1e-15), d >= rv(-1e-15)), z3.And(r.r - ab <= rv(6e-8), ab - r.r <= rv(6e-8))))
        else:
            self.e.define(z3.And(z3.Implies(rs[0] == 0, r.r == 0), z3.Implies(rs[0] > 0, r.r > 0), z3.Implies(rs[0] < 0, r.r < 0)))
        return self.put(name, rs, r)

    def f_acos(self, x): return self.inverse("acos", "cos", x, 0, math.pi)
    def f_asin(self, x): return self.inverse("asin", "sin", x, -math.pi / 2, math.pi / 2)

    def f_atan2(self, y, x):
        rs = [_r(y), _r(x)]
        k = self.known("atan2", rs)
        if k: return k[0]
        r = self.fresh("atan2", -math.pi, math.pi)
        a, b = rs
        h = rv(math.pi / 2)
        self.e.define(z3.And(z3.Implies(a > 0, r.r > 0), z3.Implies(a < 0, r.r < 0),
                             z3.Implies(z3.And(a == 0, b > 0), r.r == 0), z3.Implies(z3.And(a == 0, b < 0), z3.Or(r.r == rv(math.pi), r.r == -rv(math.pi))),
                             z3.Implies(z3.And(b == 0, a > 0), r.r == h), z3.Implies(z3.And(b == 0, a < 0), r.r == -h),
                             z3.Implies(z3.And(a == 0, b == 0), z3.Or(r.r == 0, r.r == rv(math.pi), r.r == -rv(math.pi))),
                             z3.Implies(z3.And(b > 0), z3.And(r.r <= h, r.r >= -h))))
        return self.put("atan2", rs, r)

    def f_atan(self, x):
        r = self.fresh("atan", -math.pi / 2, math.pi / 2)
        a = _r(x)
        self.e.define(z3.And(z3.Implies(a == 0, r.r == 0), z3.Implies(a > 0, r.r > 0), z3.Implies(a < 0, r.r < 0)))
        return self.put("atan", [a], r, -1)

    def f_tan(self, x): return self.f_sin(x) / self.f_cos(x)

    def f_sqrt(self, x):
        a = _r(x)
        if bool(mkbool(z3.simplify(a < 0))): raise ValueError("math domain error")
        k = self.known("sqrt", [a])
        if k and k[1] > 0: return k[0]
        r = self.fresh("sqrt", 0, None)
        ep = rv(2.0 ** -50)
        self.e.define(z3.And(z3.Implies(a == 0, r.r == 0), z3.Implies(a > 0, r.r > 0), z3.Implies(a <= 1, r.r <= 1), z3.Implies(a >= 1, r.r >= 1),
                             r.r * r.r >= a * (1 - ep), r.r * r.r <= a * (1 + ep)))
        return self.put("sqrt", [a], r)

    def f_hypot(self, *xs):
        rs = [_r(x) for x in xs]
        k = self.known("hypot", rs)
        if k and k[1] > 0: return k[0]
        r = self.fresh("hypot", 0, None)
        self.e.define(z3.And([z3.Implies(z3.And([a == 0 for a in rs]), r.r == 0)] + [z3.And(r.r >= a * (1 - rv(2.0 ** -50)), r.r >= -a * (1 - rv(2.0 ** -50))) for a in rs]))
        return self.put("hypot", rs, r)

"""Decision procedure for nonlinear real formulas with trigonometric functions (what an ICP solver such as dReal does): the real code is
executed on symbolic reals, giving one expression graph per path; a formula  |e1 - e2| <= tol  under the path's comparisons is then decided
over a box of inputs by branch and prune with Taylor models (polynomial + rigorous remainder, rounding of the bound arithmetic and of the
code's own operations included).  A box is discharged when the bound is within tol or a path comparison is refuted on it; a point at which
the formula fails is a counterexample (replayed on the real code)."""
import math
import numpy as np
from itertools import product
import time
from .core import cur, Unsupported, PathAbort
from .values import Sym, mkbool

U = 2.0 ** -52


PARTIAL = ("div", "sqrt", "asin", "acos")      # operations that can raise


def partial(n):
    return n.op in PARTIAL and not (n.op == "div" and n.args[1].op == "const" and n.args[1].val != 0)


class Node(Sym):
    """real-valued expression; immutable, hash-consed per path"""
    _pt = float
    __slots__ = ("op", "args", "val", "id", "fs")

    def __repr__(self): return "<node %s>" % self.op
    # arithmetic
    def __add__(self, o): return G().bin("add", self, o)
    def __radd__(self, o): return G().bin("add", o, self)
    def __sub__(self, o): return G().bin("sub", self, o)
    def __rsub__(self, o): return G().bin("sub", o, self)
    def __mul__(self, o): return G().bin("mul", self, o)
    def __rmul__(self, o): return G().bin("mul", o, self)
    def __truediv__(self, o): return G().bin("div", self, o)
    def __rtruediv__(self, o): return G().bin("div", o, self)
    def __neg__(self): return G().neg(self)
    def __pos__(self): return self
    def __abs__(self): return G().abs(self)
    def __pow__(self, o, m=None):
        if isinstance(o, (int, float)) and o == int(o) and 0 <= o <= 12:
            r = G().const(1.0)
            for _ in range(int(o)): r = r * self
            return r
        if isinstance(o, float) and 2 * o == int(2 * o) and 0 < o < 12:
            return self ** int(o) * G().call("sqrt", self)
        if isinstance(o, (int, float)) and o < 0: return 1.0 / self ** (-o)
        raise Unsupported("power of a real")
    def __lt__(self, o): return G().cmp(self, o, "<")
    def __le__(self, o): return not G().cmp(self, o, ">")
    def __gt__(self, o): return G().cmp(self, o, ">")
    def __ge__(self, o): return not G().cmp(self, o, "<")
    def __eq__(self, o):
        if not isinstance(o, (Node, int, float)): return False
        return G().cmp(self, o, "==")
    def __ne__(self, o): return not (self == o)
    def __bool__(self): return not (self == 0)
    def __hash__(self): return self.id
    def __round__(self, n=None): raise Unsupported("round of a real")


def model(f, a, k):
    """builtins applied to reals"""
    g = G()
    n = getattr(f, "__name__", "")
    if f in (float, int.__pos__): return a[0]
    if f is abs: return abs(a[0])
    if f in (min, max) and not k:
        xs = list(a[0]) if len(a) == 1 else list(a)
        r = xs[0]
        for x in xs[1:]:
            if (x < r) if f is min else (x > r): r = x
        return r
    if f is sum:
        r = a[1] if len(a) > 1 else 0
        for x in a[0]: r = r + x
        return r
    if f is pow and len(a) == 2: return a[0] ** a[1]
    if f in (isinstance, type, hash, id, callable, list, tuple, iter, enumerate, zip, reversed, dict): return NotImplemented
    if n == "copysign" and isinstance(a[1], Node):
        m = abs(a[0])
        return -m if a[1] < 0 else m
    if getattr(f, "__module__", "") == "math": return g.call(n, *a)
    return NotImplemented


def G():
    return cur().icp


class Graph:
    def model(self, f, a, k): return model(f, a, k)

    def __init__(self, e):
        self.e = e
        self.tab = {}
        self.nodes = []
        self.conds = []         # (a, op, b, outcome)
        self.side = []          # nodes that must be positive for a rewriting to be valid
        self.vars = {}
        self.at = None
        e.icp = self
        e.icp_boxes = getattr(e, 'icp_boxes', 0)
        e.icp_weight = {}
        e.math_stub = self.call

    def mk(self, op, args=(), val=None):
        key = (op, tuple(a.id for a in args), None if val is None else (val, math.copysign(1, val)) if isinstance(val, float) else val)
        n = self.tab.get(key)
        if n is None:
            n = Node()
            n.op, n.args, n.val, n.id, n.fs = op, tuple(args), val, len(self.nodes), None
            self.nodes.append(n)
            self.tab[key] = n
        return n

    def var(self, name, lo, hi):
        n = self.mk("var", (), name)
        self.vars[name] = (n, lo, hi)
        return n

    def const(self, x): return self.mk("const", (), float(x))

    def node(self, x):
        if isinstance(x, Node): return x
        if isinstance(x, (int, float)) and not isinstance(x, Sym): return self.const(x)
        return None

    def factors(self, n):
        """(constant, {node: power}) of a product"""
        if n.fs is None:
            if n.op == "const": n.fs = (n.val, {})
            elif n.op == "mul":
                (ca, fa), (cb, fb) = self.factors(n.args[0]), self.factors(n.args[1])
                d = dict(fa)
                for k, v in fb.items(): d[k] = d.get(k, 0) + v
                n.fs = (ca * cb, d)
            elif n.op == "neg":
                c, d = self.factors(n.args[0])
                n.fs = (-c, d)
            elif n.op == "fuzz": n.fs = self.factors(n.args[0])
            else: n.fs = (1.0, {n: 1})
        return n.fs

    def prod(self, c, d):
        r = None
        for k, v in d.items():
            for _ in range(v): r = k if r is None else self.mk("mul", (r, k))
        if r is None: return self.const(c)
        return r if c == 1.0 else self.mk("mul", (self.const(c), r))

    def fuzz(self, a):
        """equal to `a` up to the rounding of the handful of operations that a rewriting has removed"""
        return a if a.op in ("const", "fuzz") else self.mk("fuzz", (a,))

    def neg(self, a):
        if a.op == "const": return self.const(-a.val)
        if a.op == "neg": return a.args[0]
        return self.mk("neg", (a,))

    def bin(self, op, a, b):
        a, b = self.node(a), self.node(b)
        if a is None or b is None: return NotImplemented
        if a.op == b.op == "const":
            return self.const({"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y}[op](a.val, b.val))
        if op == "add":
            if a.op == "const" and a.val == 0: return b
            if b.op == "const" and b.val == 0: return a
            r = self.pythagoras(a, b)
            if r is not None: return r
        if op == "sub":
            if b.op == "const" and b.val == 0: return a
            (ca, fa), (cb, fb) = self.factors(a), self.factors(b)
            if ca == cb and fa == fb: return self.mk("zero", (a,))
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if x.op == "const" and x.val == 1: return y
        if op == "div":
            if b.op == "const" and b.val == 1: return a
        if op in ("add", "mul") and a.id > b.id: a, b = b, a
        return self.mk(op, (a, b))

    def pythagoras(self, a, b):
        """M cos(t)^2 + M sin(t)^2 = M"""
        (ca, fa), (cb, fb) = self.factors(a), self.factors(b)
        if ca != cb: return None
        for n in fa:
            if n.op in ("sin", "cos") and fa[n] >= 2:
                o = self.tab.get(({"sin": "cos", "cos": "sin"}[n.op], (n.args[0].id,), None))
                if o is None or fb.get(o, 0) < 2: continue
                x, y = dict(fa), dict(fb)
                x[n] -= 2
                y[o] -= 2
                x, y = {k: v for k, v in x.items() if v}, {k: v for k, v in y.items() if v}
                if x == y: return self.fuzz(self.prod(ca, x))
        return None

    def abs(self, a):
        if a.op == "const": return self.const(abs(a.val))
        return self.neg(a) if self.cmp(a, 0.0, "<") else a

    def cmp(self, a, b, op):
        a, b = self.node(a), self.node(b)
        if a is None or b is None: raise TypeError("comparison of a real with another type")
        if a.op == b.op == "const":
            return {"<": a.val < b.val, ">": a.val > b.val, "==": a.val == b.val}[op]
        if a is b: return op == "=="
        for x, o, y, r, pos in self.conds:
            if x is a and y is b or x is b and y is a:
                q = o if (x is a) else {"<": ">", ">": "<", "==": "=="}[o]
                if q == op: return r
                if r: return False      # <, > and == exclude each other
        import z3
        r = bool(mkbool(z3.Bool(self.e.newname("cmp"))))
        self.conds.append((a, op, b, r, len(self.nodes)))
        if len(self.conds) % 8 == 0 and self.feasible(3000) is False: raise PathAbort("refuted")
        return r

    def call(self, name, *args):
        args = [self.node(x) for x in args]
        if any(a is None for a in args): raise Unsupported("math.%s of another type" % name)
        if all(a.op == "const" for a in args):
            return getattr(math, name)(*[a.val for a in args])
        a = args[0]
        if name == "radians": return self.bin("mul", a, math.pi / 180)
        if name == "degrees": return self.bin("mul", a, 180 / math.pi)
        if name == "fabs": return self.abs(a)
        if name == "pow": return a ** args[1].val if args[1].op == "const" else self.bad(name)
        if name == "hypot":
            r = self.const(0.0)
            for x in args: r = self.bin("add", r, self.bin("mul", x, x))
            return self.call("sqrt", r)
        if name == "sqrt":
            c, f = self.factors(a)
            if c > 0 and f and all(v % 2 == 0 for v in f.values()):
                r = self.const(math.sqrt(c))
                for k, v in f.items(): r = self.bin("mul", r, self.abs(k) ** (v // 2) if v % 4 else k ** (v // 2))
                return self.fuzz(r)
            return self.mk("sqrt", (a,))
        if name == "atan2":
            y, x = args
            (cy, fy), (cx, fx) = self.factors(y), self.factors(x)
            if cy == cx and cy > 0:
                for n in fy:
                    if n.op == "sin":
                        o = self.tab.get(("cos", (n.args[0].id,), None))
                        if o is None or fx.get(o, 0) < 1: continue
                        p, q = dict(fy), dict(fx)
                        p[n] -= 1
                        q[o] -= 1
                        p, q = {k: v for k, v in p.items() if v}, {k: v for k, v in q.items() if v}
                        if p == q:
                            # M sin t, M cos t: the angle is t where M > 0 and -pi < t <= pi
                            return self.mk("angle", (n.args[0], self.prod(cy, p)))
            return self.mk("atan2", (y, x))
        if name == "tan": return self.bin("div", self.call("sin", a), self.call("cos", a))
        if name in ("sin", "cos", "asin", "acos", "atan"): return self.mk(name, (a,))
        self.bad(name)

    def feasible(self, max_boxes=20000):
        """a point of this path, False if there is none, None if unknown"""
        if not self.vars: return {}
        pr = Problem(self, [("never", None, None, 0)], max_boxes=max_boxes, max_time=20)
        st, x = pr.solve(np.random.default_rng(1))
        self.e.icp_boxes += pr.boxes
        return False if st == "holds" else x if st == "fails" else None

    def where(self):
        if self.at is None or self.at[0] != len(self.conds):
            p = self.feasible()
            if p is False: raise PathAbort("refuted")
            self.at = (len(self.conds), p or {k: (lo + hi) / 2 for k, (n, lo, hi) in self.vars.items()})
        return self.at[1]

    def value(self, n):
        p = self.where()
        pr = Problem(self, [("defined", n, None, 0)])
        pr.points({k: np.array([x]) for k, x in p.items()})
        return float(np.broadcast_to(pr.vals[n.id], (1,))[0])

    def bad(self, name): raise Unsupported("math.%s of a real" % name)


# ------------------------------------------------------------------ Taylor models (vectorised over boxes)
class Ctx:
    def __init__(self, nvars, order):
        self.n, self.K = nvars, order
        self.mon = [m for m in product(range(order + 1), repeat=nvars) if sum(m) <= order]
        self.mon.sort(key=lambda m: (sum(m), m))
        ix = {m: i for i, m in enumerate(self.mon)}
        self.deg = np.array([sum(m) for m in self.mon])
        tab = {}
        for i, a in enumerate(self.mon):
            for j, b in enumerate(self.mon):
                m = tuple(x + y for x, y in zip(a, b))
                if m in ix: tab.setdefault(ix[m], []).append((i, j))
        self.mul = [(np.array([p[0] for p in tab[k]]), np.array([p[1] for p in tab[k]])) for k in range(len(self.mon))]
        self.ix = ix
        self.nc = len(self.mon)
        self.has = [np.array([k for k, m in enumerate(self.mon) if m[i]]) for i in range(nvars)]
        self.byd = [np.where(self.deg == d)[0] for d in range(order + 1)]


class Undecided(Exception):
    def __init__(self, mask): self.mask = mask      # boxes on which an operation is not known to be defined


class TM:
    __slots__ = ("x", "c", "r")

    def __init__(self, ctx, c, r):
        self.x, self.c, self.r = ctx, c, r

    def norms(self):
        a = np.abs(self.c)
        return np.stack([a[d].sum(axis=0) for d in self.x.byd])

    def rad(self):
        return np.abs(self.c[1:]).sum(axis=0) * (1 + 8 * U) + self.r

    def mag(self):
        return np.abs(self.c).sum(axis=0) * (1 + 8 * U) + self.r

    def rng(self):
        d = self.rad()
        e = U * (np.abs(self.c[0]) + d)
        return self.c[0] - d - e, self.c[0] + d + e

    def add(self, o, s=1):
        c = self.c + s * o.c
        return TM(self.x, c, (self.r + o.r) * (1 + 4 * U) + 2 * U * (np.abs(self.c).sum(axis=0) + np.abs(o.c).sum(axis=0)))

    def mul(self, o):
        x = self.x
        c = np.empty_like(self.c)
        for k, (i, j) in enumerate(x.mul):
            c[k] = (self.c[i] * o.c[j]).sum(axis=0)
        na, nb = self.norms(), o.norms()
        sa, sb = na.sum(axis=0), nb.sum(axis=0)
        tr = np.zeros_like(self.r)
        for d in range(1, x.K + 1):
            tr = tr + na[d] * nb[x.K + 1 - d:].sum(axis=0)
        r = tr + sa * o.r + sb * self.r + self.r * o.r
        return TM(x, c, r * (1 + 64 * U) + 2 * x.nc * U * sa * sb)

    def scale(self, k):
        return TM(self.x, self.c * k, np.abs(k) * self.r * (1 + 4 * U) + 2 * U * np.abs(self.c * k).sum(axis=0))

    def noise(self, u):
        """rounding of the code's own operation"""
        return TM(self.x, self.c, self.r + u * self.mag())

    def compose(self, co, rem):
        """sum co[k] * (self - c0)^k + rem, co: list of arrays"""
        d = TM(self.x, self.c.copy(), self.r)
        d.c[0] = 0
        z = np.zeros_like(self.c)
        res = TM(self.x, z.copy(), np.zeros_like(self.r))
        res.c[0] = co[-1]
        for k in range(len(co) - 2, -1, -1):
            res = res.mul(d)
            res.c[0] = res.c[0] + co[k]
            res.r = res.r + 2 * U * np.abs(res.c[0])
        res.r = res.r + rem + 16 * U * sum(np.abs(a) * self.rad() ** k for k, a in enumerate(co))
        return res


def need(ok):
    if not ok.all(): raise Undecided(~ok)


def f_sincos(t, cos):
    K = t.x.K
    c0, R = t.c[0], t.rad()
    s, c = np.sin(c0), np.cos(c0)
    cyc = [c, -s, -c, s] if cos else [s, c, -s, -c]
    co = [cyc[k % 4] / math.factorial(k) for k in range(K + 1)]
    return t.compose(co, R ** (K + 1) / math.factorial(K + 1) * (1 + 64 * U) + U)


def f_inv(t):
    K = t.x.K
    lo, hi = t.rng()
    need((lo > 0) | (hi < 0))
    c0, R = t.c[0], t.rad()
    m = np.abs(c0) - R
    need(m > 0)
    co = [(-1) ** k / c0 ** (k + 1) for k in range(K + 1)]
    return t.compose(co, (R / m) ** (K + 1) / m * (1 + 64 * U))


def f_sqrt(t):
    K = t.x.K
    c0, R = t.c[0], t.rad()
    m = c0 - R
    need(m > 0)
    co, b = [], 1.0
    s = np.sqrt(c0)
    for k in range(K + 1):
        co.append(b * s / c0 ** k)
        b = b * (0.5 - k) / (k + 1)
    return t.compose(co, abs(b) * np.sqrt(m) * (R / m) ** (K + 1) * (1 + 64 * U))


def f_sqrt0(t):
    """interval bound, for an argument known not to be negative"""
    lo, hi = t.rng()
    h = np.sqrt(np.maximum(hi, 0)) * (1 + 4 * U)
    c = np.zeros_like(t.c)
    c[0] = h / 2
    return TM(t.x, c, h / 2)


def nonneg(n):
    if n.op == "const": return n.val >= 0
    if n.op == "fuzz": return nonneg(n.args[0])
    if n.op == "add": return nonneg(n.args[0]) and nonneg(n.args[1])
    c, f = G().factors(n) if cur() is not None else (-1, {})
    return c >= 0 and all(v % 2 == 0 for v in f.values())


def powser(c0, p, q, K):
    """Taylor coefficients of q(t)^p at 0, q given by its coefficients"""
    g = [q[0] ** p]
    for n in range(1, K + 1):
        s = 0
        for k in range(1, min(n, len(q) - 1) + 1):
            s = s + (p * k - (n - k)) * q[k] * g[n - k]
        g.append(s / (n * q[0]))
    return g


def f_asin(t, acos=False):
    K = t.x.K
    lo, hi = t.rng()
    c0, R = t.c[0], t.rad()
    rho = 1 - np.abs(c0)
    need((lo > -1) & (hi < 1) & (R < 0.9 * rho))
    g = powser(c0, -0.5, [1 - c0 * c0, -2 * c0, -np.ones_like(c0)], K)
    co = [np.arcsin(c0)] + [g[k] / (k + 1) for k in range(K)]
    q = R / rho
    rem = (math.pi / 2 + 1e-9) * q ** (K + 1) / (1 - q) * (1 + 64 * U)
    rem = rem + 1e-15 * sum(np.abs(a) * R ** k for k, a in enumerate(co)) + 4 * U
    if acos:
        co = [np.arccos(c0)] + [-a for a in co[1:]]
    return t.compose(co, rem)


def f_atan(t):
    K = t.x.K
    c0, R = t.c[0], t.rad()
    d = np.sqrt(1 + c0 * c0)
    rho = d / 2
    need(R < 0.9 * rho)
    g = powser(c0, -1.0, [1 + c0 * c0, 2 * c0, np.ones_like(c0)], K)
    co = [np.arctan(c0)] + [g[k] / (k + 1) for k in range(K)]
    M = np.abs(co[0]) + rho / (d - rho) ** 2
    q = R / rho
    return t.compose(co, M * q ** (K + 1) / (1 - q) * (1 + 64 * U) + 4 * U)


class Problem:
    """branch and prune over the variables of `want` [(kind, a, b, tol)] and of the path conditions"""

    def __init__(self, g, wants, order=6, max_boxes=400000, chunk=4096, max_time=200, raises=True):
        self.raises = raises        # an operation that raises anywhere on the path counts
        self.g, self.wants, self.order, self.chunk, self.max_boxes, self.max_time = g, wants, order, chunk, max_boxes, max_time
        roots = [n for w in wants for n in w[1:3] if n is not None]
        self.roots = roots + [n for a, o, b, r, pos in g.conds for n in (a, b)] + ([n for n in g.nodes if partial(n)] if raises else [])
        need_ = set()
        st = list(self.roots)
        while st:
            n = st.pop()
            if n.id in need_: continue
            need_.add(n.id)
            st += n.args
        self.order_nodes = [g.nodes[i] for i in sorted(need_)]
        used = [n.val for n in self.order_nodes if n.op == "var"]
        self.names = [k for k in g.vars if k in used]
        self.boxes = 0

    # -- point evaluation: counterexample search
    def points(self, P):
        """P: dict name -> array; returns mask of points that violate a want while meeting the path conditions"""
        v = {}
        with np.errstate(all="ignore"):
            for n in self.order_nodes:
                a = [v[x.id] for x in n.args]
                o = n.op
                if o == "const": r = np.float64(n.val)
                elif o == "var": r = P[n.val]
                elif o == "add": r = a[0] + a[1]
                elif o == "sub": r = a[0] - a[1]
                elif o == "mul": r = a[0] * a[1]
                elif o == "div": r = a[0] / a[1]
                elif o == "neg": r = -a[0]
                elif o == "fuzz": r = a[0]
                elif o == "zero": r = 0 * a[0]
                elif o == "sin": r = np.sin(a[0])
                elif o == "cos": r = np.cos(a[0])
                elif o == "sqrt": r = np.sqrt(a[0])
                elif o == "asin": r = np.arcsin(a[0])
                elif o == "acos": r = np.arccos(a[0])
                elif o == "atan": r = np.arctan(a[0])
                elif o == "atan2": r = np.arctan2(a[0], a[1])
                elif o == "angle": r = np.where(a[1] > 0, a[0], np.nan)
                v[n.id] = r
            N = len(next(iter(P.values())))
            ok = np.ones(N, bool)
            for a, o, b, r, pos in self.g.conds:
                x, y = v[a.id], v[b.id]
                t = x < y if o == "<" else x > y if o == ">" else x == y
                ok &= t == r
            bad = np.zeros(N, bool)
            for kind, a, b, tol in self.wants:
                x = np.broadcast_to(v[a.id], (N,)) if a is not None else None
                if kind == "near": bad |= ~(np.abs(x - v[b.id]) <= tol)
                elif kind == "le": bad |= ~(x <= v[b.id] + tol)
                elif kind == "defined": bad |= ~np.isfinite(x)
                elif kind == "never": bad[:] = True
            for n in self.order_nodes:
                if self.raises and partial(n): bad |= ~np.isfinite(np.broadcast_to(v[n.id], (N,)))
        self.vals = v
        return ok & bad

    # -- one chunk of boxes
    def evaluate(self, lo, hi):
        """status per box: 1 discharged, 0 undecided"""
        N = lo.shape[1]
        done = np.zeros(N, bool)
        dead = np.zeros(N, bool)
        ctx = self.ctx
        mid, half = (lo + hi) / 2, (hi - lo) / 2 * (1 + 4 * U)
        zero = np.zeros((ctx.nc, N))
        v = {}

        def const(x):
            c = zero.copy()
            c[0] = x
            return TM(ctx, c, np.zeros(N))
        alive = np.ones(N, bool)
        pend = list(self.g.conds)
        try:
            for n in self.order_nodes:
                pend = self.refute(pend, v, n.id, dead)
                a = [v[x.id] for x in n.args]
                o = n.op
                if o == "const": r = const(n.val)
                elif o == "var":
                    i = self.names.index(n.val)
                    r = const(mid[i])
                    r.c[1 + self.varpos[i]] = half[i]
                elif o in ("add", "sub"): r = a[0].add(a[1], 1 if o == "add" else -1).noise(U / 2)
                elif o == "mul":
                    if n.args[0].op == "const": r = a[1].scale(n.args[0].val).noise(U / 2)
                    elif n.args[1].op == "const": r = a[0].scale(n.args[1].val).noise(U / 2)
                    else: r = a[0].mul(a[1]).noise(U / 2)
                elif o == "div":
                    if n.args[1].op == "const": r = a[0].scale(1 / n.args[1].val).noise(2 * U)
                    else: r = a[0].mul(self.guard(f_inv, a[1])).noise(U)
                elif o == "neg": r = a[0].scale(-1.0)
                elif o == "fuzz": r = a[0].noise(16 * U)
                elif o == "zero": r = TM(ctx, zero, 16 * U * a[0].mag())      # difference of equal products: rounding only
                elif o in ("sin", "cos"): r = f_sincos(a[0], o == "cos").noise(U)
                elif o == "sqrt":
                    r = self.guard(f_sqrt, a[0], f_sqrt0 if nonneg(n.args[0]) else None).noise(U)
                elif o == "asin": r = self.guard(f_asin, a[0]).noise(U)
                elif o == "acos": r = self.guard(lambda t: f_asin(t, True), a[0]).noise(U)
                elif o == "atan": r = self.guard(f_atan, a[0]).noise(U)
                elif o == "angle":
                    l, h = a[1].rng()
                    t0, t1 = a[0].rng()
                    self.blame(a[1], ~(l > 0) & ~self.lost)
                    self.lost |= ~((l > 0) & (t0 > -math.pi - 1e-9) & (t1 < math.pi + 1e-9))
                    r = a[0].noise(16 * U)
                    r = TM(r.x, r.c, r.r + 16 * U)
                elif o == "atan2":
                    # right half plane only
                    l, h = a[1].rng()
                    self.blame(a[1], ~(l > 0) & ~self.lost)
                    self.lost |= ~(l > 0)
                    q = a[0].mul(self.guard(f_inv, a[1]))
                    r = self.guard(f_atan, q).noise(4 * U)
                else: raise Unsupported("no bounds for " + o)
                v[n.id] = r
            self.refute(pend, v, 1 << 60, dead)
        except FloatingPointError:
            return dead
        ok = ~self.lost
        for kind, a, b, tol in self.wants:
            if kind == "never": ok[:] = False
            elif kind == "le":
                l, h = v[a.id].add(v[b.id], -1).rng()
                ok &= h <= tol
                self.blame(v[a.id], ~(h <= tol) & ~self.lost)
            elif kind == "near":
                l, h = v[a.id].add(v[b.id], -1).rng()
                good = (l >= -tol) & (h <= tol)
                ok &= good
                d = v[a.id].add(v[b.id], -1)
                self.blame(v[a.id], ~good & ~self.lost)
                self.blame(v[b.id], ~good & ~self.lost)
                self.blame(d, ~good & ~self.lost & (d.r < 0.5 * d.rad()), self.pscore)
            else:
                l, h = v[a.id].rng()
                ok &= np.isfinite(l) & np.isfinite(h)
        return dead | ok

    def blame(self, t, mask, sc=None):
        """which variables make a bound too wide (where mask)"""
        if sc is None: sc = self.score
        tot = np.abs(t.c[1:]).sum(axis=0) + 1e-300
        for i in range(len(self.names)):
            sc[i] += np.where(mask, np.abs(t.c[t.x.has[i]]).sum(axis=0) / tot, 0)

    def refute(self, pend, v, upto, dead):
        """comparisons the program makes before node `upto`: boxes on which one goes the other way are off this path"""
        rest = []
        for cnd in pend:
            x, op, y, res, pos = cnd
            if pos > upto:
                rest.append(cnd)
                continue
            df = v[x.id].add(v[y.id], -1)
            l, h = df.rng()
            if res or op != "==": self.blame(df, (l < 0) & (h > 0) & ~self.lost, self.cscore)
            no = np.zeros(len(l), bool)
            ref = {"<": (l >= 0, h < 0), ">": (h <= 0, l > 0), "==": ((l > 0) | (h < 0), no)}[op]
            # an operation not known to be defined on the box may raise before: undecided
            dead |= (ref[0] if res else ref[1]) & ~self.lost
        return rest

    def guard(self, f, t, other=None):
        """apply f where it is defined on the whole box; elsewhere the box is lost (a harmless value goes on)"""
        for _ in range(6):
            try:
                with np.errstate(all="ignore"):
                    return f(t)
            except Undecided as u:
                if other is not None:
                    self.blame(t, u.mask & ~self.lost, self.cscore)
                    w = other(t)
                    t2 = TM(t.x, t.c.copy(), t.r.copy())
                    t2.c[:, u.mask] = 0
                    t2.c[0, u.mask] = 0.5
                    t2.r[u.mask] = 0
                    r = self.guard(f, t2, other)
                    r.c[:, u.mask] = w.c[:, u.mask]
                    r.r[u.mask] = w.r[u.mask]
                    return r
                self.blame(t, u.mask & ~self.lost)
                self.lost |= u.mask
                c = t.c.copy()
                c[:, u.mask] = 0
                c[0, u.mask] = 0.5
                r = t.r.copy()
                r[u.mask] = 0
                t = TM(t.x, c, r)
        raise Unsupported("domain")

    def solve(self, rng):
        """-> ('holds', boxes) | ('fails', point) | ('unknown', why); several ways to choose the variable to bisect"""
        t0 = time.time()
        total, why = 0, "no time"
        for f in (1, 8):
            for mode, share in (("conds", 0.005), ("poly", 0.1), ("blame", 0.1), ("mixed", 0.1)):
                left = self.max_time - (time.time() - t0)
                if left <= 0 or total > self.max_boxes * 2: break
                self.boxes = 0
                st, why = self.run(rng, mode, int(self.max_boxes * share * f), left)
                total += self.boxes
                if st != "unknown":
                    self.boxes = total
                    return (st, total) if st == "holds" else (st, why)
        self.boxes = total
        return "unknown", why

    def run(self, rng, mode, max_boxes, max_time):
        t0 = time.time()
        n = len(self.names)
        if n == 0:
            self.names = [next(iter(self.g.vars))]
            n = 1
        self.ctx = Ctx(n, self.order)
        self.varpos = [self.ctx.ix[tuple(1 if j == i else 0 for j in range(n))] - 1 for i in range(n)]
        lo = np.array([[self.g.vars[k][1]] for k in self.names], float)
        hi = np.array([[self.g.vars[k][2]] for k in self.names], float)
        full = (hi - lo)[:, 0]
        worst = 0
        self.worst = {}
        while lo.shape[1]:
            if self.boxes > max_boxes or time.time() - t0 > max_time:
                self.rest = lo, hi
                return "unknown", "%d boxes, %d undecided" % (self.boxes, lo.shape[1])
            m = min(self.chunk, lo.shape[1])
            a, b, lo, hi = lo[:, :m], hi[:, :m], lo[:, m:], hi[:, m:]
            self.boxes += m
            # counterexample search at corners, centre and random points
            for f in (0.5, 0.0, 1.0, None):
                P = {k: self.g.vars[k][1] + (self.g.vars[k][2] - self.g.vars[k][1]) * rng.random(m) for k in self.g.vars}
                for i, k in enumerate(self.names):
                    P[k] = a[i] + (b[i] - a[i]) * (rng.random(m) if f is None else f)
                bad = self.points(P)
                if bad.any():
                    j = int(np.argmax(bad))
                    return "fails", {k: float(P[k][j]) for k in self.g.vars}
            self.lost = np.zeros(m, bool)
            self.score, self.cscore, self.pscore = np.zeros((n, m)), np.zeros((n, m)), np.zeros((n, m))
            with np.errstate(all="ignore"):
                st = self.evaluate(a, b)
            if st.all(): continue
            a, b = a[:, ~st], b[:, ~st]
            # bisect the relatively widest variable
            w = (b - a) / full[:, None] * self.weight()[:, None]
            sc, cs, ps, u = self.score[:, ~st], self.cscore[:, ~st], self.pscore[:, ~st], rng.random(w.shape[1])
            k = w.argmax(axis=0)
            if mode == "conds": k = np.where(cs.sum(axis=0) > 0, cs.argmax(axis=0), k)
            elif mode == "poly": k = np.where(ps.sum(axis=0) > 0, ps.argmax(axis=0), k)
            elif mode == "blame": k = np.where((u < 0.4) & (cs.sum(axis=0) > 0), cs.argmax(axis=0), np.where((u < 0.9) & (sc.sum(axis=0) > 0), sc.argmax(axis=0), k))
            else:
                for q, sel in ((cs, u < 0.35), (sc, (u >= 0.35) & (u < 0.7))):
                    tot = q.sum(axis=0)
                    c = np.cumsum(q, axis=0) / (tot + 1e-300)
                    pick = np.minimum((rng.random(w.shape[1]) > c).sum(axis=0), n - 1)
                    k = np.where(sel & (tot > 0), pick, k)
            j = np.arange(a.shape[1])
            if (w[k, j] < 1e-13).any(): return "unknown", "box too small (%s) at %s" % (mode, {nm: (float(a[i, w[k, j].argmin()]), float(b[i, w[k, j].argmin()])) for i, nm in enumerate(self.names)})
            mid = (a[k, j] + b[k, j]) / 2
            a2, b2 = a.copy(), b.copy()
            b2[k, j] = mid
            a[k, j] = mid
            lo = np.concatenate([a2, a, lo], axis=1)
            hi = np.concatenate([b2, b, hi], axis=1)
        return "holds", self.boxes

    def weight(self):
        return np.array([self.g.e.icp_weight.get(k, 1.0) for k in self.names])

"""Fast construction of frequent z3 terms (thin layer over the C API; same terms as the z3py functions)."""
import z3
from z3 import z3core
from z3 import z3types



class _L:
    """raw ctypes functions of the z3 library (taken from z3core's own wrappers)"""

    def __getattr__(self, name):
        w = getattr(z3core, name)
        f = w.__defaults__[0].f if w.__defaults__ else None
        setattr(self, name, f)
        return f


_l = _L()
CTX = z3.main_ctx()
CREF = CTX.ref()
_inc, _dec = _l.Z3_inc_ref, _l.Z3_dec_ref
Ast = z3types.Ast


def _init(self, ast, ctx=None):
    self.ast = ast
    self.ctx = CTX if ctx is None else ctx
    _inc(CREF, ast)


def _del(self):
    if self.ctx is not None and _dec is not None and self.ast is not None:
        try:
            _dec(CREF, self.ast)
        except TypeError:
            pass
    self.ast = None


def _bye():
    global _dec
    _dec = None


__import__("atexit").register(_bye)
z3.AstRef.__init__ = _init
z3.AstRef.__del__ = _del
_getid = _l.Z3_get_ast_id


def _get_id(self):
    d = self.__dict__
    i = d.get("_sid")
    if i is None:
        i = d["_sid"] = _getid(CREF, self.as_ast())
    return i


z3.AstRef.get_id = _get_id
_new = object.__new__


def mk(cls, a):
    r = _new(cls)
    r.ast = a
    r.ctx = CTX
    _inc(CREF, a)
    return r


B = z3.BoolRef


def And(ts):
    n = len(ts)
    if n == 1: return ts[0]
    return mk(B, _l.Z3_mk_and(CREF, n, (Ast * n)(*[t.ast for t in ts])))


def Or(ts):
    n = len(ts)
    if n == 1: return ts[0]
    return mk(B, _l.Z3_mk_or(CREF, n, (Ast * n)(*[t.ast for t in ts])))


def Not(t):
    return mk(B, _l.Z3_mk_not(CREF, t.ast))


def Eq(a, b):
    return mk(B, _l.Z3_mk_eq(CREF, a.ast, b.ast))


def Ule(a, b):
    return mk(B, _l.Z3_mk_bvule(CREF, a.ast, b.ast))


_v8 = [z3.BitVecVal(i, 8) for i in range(256)]


def v8(i):
    return _v8[i]


def width(c):
    d = c.__dict__
    w = d.get("_w")
    if w is None:
        w = d["_w"] = c.size()
    return w


def ident(a, b):
    return a is b or a.get_id() == b.get_id()


z3.ExprRef.get_id = _get_id
_T, _F = z3.BoolVal(True), z3.BoolVal(False)
_TI, _FI = _getid(CREF, _T.as_ast()), _getid(CREF, _F.as_ast())


def is_true(t):
    return t.get_id() == _TI


def is_false(t):
    return t.get_id() == _FI


_eval = _l.Z3_model_eval
import ctypes as _ct


def holds(m, c):
    """does boolean c evaluate to true in model m (with completion)?"""
    out = (Ast * 1)()
    if not _eval(CREF, m.model, c.ast, True, out):
        raise z3.Z3Exception("model eval failed")
    a = out[0]
    a = a if isinstance(a, Ast) else Ast(a)
    _inc(CREF, a)
    r = _getid(CREF, a) == _TI
    _dec(CREF, a)
    return r

"""AST instrumentation and loading of /repo's package (and of the harness modules)."""
import ast
import importlib.abc
import importlib.util
import os
import sys
import types

from . import core, rt

REPO = os.environ.get("SX_REPO", "/repo")
SRC = os.path.join(REPO, "src", "pynmeagps")
NOCALL = {"super", "locals", "globals"}


def name_(n):
    return ast.Name(id=n, ctx=ast.Load())


def hook(attr, *args):
    return ast.Call(func=ast.Attribute(value=name_("_S"), attr=attr, ctx=ast.Load()), args=list(args), keywords=[])


class Tx(ast.NodeTransformer):
    def __init__(self, rename, mod, harness=False):
        self.rename = rename
        self.mod = mod
        self.harness = harness
        self.stack = []

    # imports
    def visit_Import(self, n):
        out = []
        for a in n.names:
            if self.rename and (a.name == "pynmeagps" or a.name.startswith("pynmeagps.")):
                if a.asname is None and a.name != "pynmeagps":
                    # import pynmeagps.x  -> binds 'pynmeagps'
                    out.append(ast.Import(names=[ast.alias(name="sx_" + a.name, asname=None)]))
                    out.append(ast.Import(names=[ast.alias(name="sx_pynmeagps", asname="pynmeagps")]))
                else:
                    out.append(ast.Import(names=[ast.alias(name="sx_" + a.name, asname=a.asname or a.name)]))
            else:
                out.append(ast.Import(names=[a]))
        return out

    def visit_ImportFrom(self, n):
        if self.rename and n.level == 0 and n.module and (n.module == "pynmeagps" or n.module.startswith("pynmeagps.")):
            n.module = "sx_" + n.module
        return n

    # functions
    def _func(self, n):
        self.stack.append(n.name)
        n.body = [self.visit(s) for s in n.body]
        n.body = [x for s in n.body for x in (s if isinstance(s, list) else [s])]
        n.args = self.visit(n.args)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        qn = self.mod + "." + ".".join(self.stack)
        self.stack.pop()
        h = ast.Expr(value=hook("entered", ast.Constant(qn)))
        i = 0
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            i = 1
        if not self.harness:
            n.body.insert(i, h)
        return n

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None: n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_arg(self, n):
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in NOCALL and not n.args and not n.keywords:
            return n
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "_S":
            return n
        return ast.Call(func=ast.Attribute(value=name_("_S"), attr="call", ctx=ast.Load()), args=[n.func] + n.args, keywords=n.keywords)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op = n.ops[0]
            l, r = n.left, n.comparators[0]
            if isinstance(op, ast.In): return hook("contains", r, l)
            if isinstance(op, ast.NotIn): return hook("notin", r, l)
            if isinstance(op, (ast.Is, ast.IsNot)) and any(isinstance(x, ast.Constant) and isinstance(x.value, bool) for x in (l, r)):
                c = hook("iss", l, r)
                return c if isinstance(op, ast.Is) else ast.UnaryOp(op=ast.Not(), operand=c)
            return n
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            # a < b in c: split (middle operands re-evaluated only if simple)
            parts = []
            left = n.left
            for o, c in zip(n.ops, n.comparators):
                if isinstance(o, ast.In): parts.append(hook("contains", c, left))
                elif isinstance(o, ast.NotIn): parts.append(hook("notin", c, left))
                else: parts.append(ast.Compare(left=left, ops=[o], comparators=[c]))
                left = c
            return ast.BoolOp(op=ast.And(), values=parts)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Slice, ast.Constant)) and not (
                isinstance(n.slice, ast.UnaryOp) and isinstance(n.slice.operand, ast.Constant)):
            return hook("getitem", n.value, n.slice)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and not isinstance(n.targets[0].slice, (ast.Slice, ast.Constant)):
            t = n.targets[0]
            return ast.Expr(value=hook("setitem", t.value, t.slice, n.value))
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod): return hook("mod", n.left, n.right)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return hook("fstr", *parts)

    def visit_For(self, n):
        self.generic_visit(n)
        if not self.harness:
            n.iter = hook("it", n.iter)
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        if not self.harness:
            n.body.insert(0, ast.Expr(value=hook("tick")))
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        return n

    def visit_Try(self, n):
        self.generic_visit(n)
        if any(h.type is None or _mentions(h.type, "BaseException") for h in n.handlers):
            n.handlers.insert(0, ast.ExceptHandler(
                type=ast.Attribute(value=name_("_S"), attr="EngineStop", ctx=ast.Load()), name=None, body=[ast.Raise()]))
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_Match(self, n):
        n.subject = self.visit(n.subject)
        for c in n.cases:
            if c.guard is not None: c.guard = self.visit(c.guard)
            c.body = [x for s in c.body for x in _l(self.visit(s))]
        return n


def _l(x):
    return x if isinstance(x, list) else [x]


def _mentions(t, nm):
    return any(isinstance(x, ast.Name) and x.id == nm or isinstance(x, ast.Attribute) and x.attr == nm for x in ast.walk(t))


rt.EngineStop = core.EngineStop


def compile_file(path, modname, rename=True, harness=False):
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src, path)
    tree = Tx(rename, modname.replace("sx_", "", 1), harness).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != "sx_pynmeagps" and not name.startswith("sx_pynmeagps."):
            return None
        rel = name.split(".")[1:]
        base = os.path.join(SRC, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            sp = importlib.util.spec_from_loader(name, self, is_package=True)
            sp.submodule_search_locations = [base]
        elif os.path.exists(base + ".py"):
            f = base + ".py"
            sp = importlib.util.spec_from_loader(name, self)
        else:
            return None
        sp.origin = f
        return sp

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__["_S"] = rt
        module.__file__ = module.__spec__.origin
        exec(compile_file(module.__file__, module.__name__), module.__dict__)


_finder = None


def load_instrumented():
    """import the package from SRC under the name sx_pynmeagps"""
    global _finder
    if _finder is None:
        _finder = Finder()
        sys.meta_path.insert(0, _finder)
    import importlib
    return importlib.import_module("sx_pynmeagps")


def load_native():
    if sys.path[:1] != [os.path.join(REPO, "src")]:
        sys.path.insert(0, os.path.join(REPO, "src"))
    sys.dont_write_bytecode = True
    import importlib
    m = importlib.import_module("pynmeagps")
    assert os.path.abspath(m.__file__).startswith(os.path.abspath(SRC)), m.__file__
    return m


def f_not_common(path):
    return os.path.basename(path) != "common.py"


def load_harness(path, name, instrumented):
    """harness module, instrumented (symbolic run) or plain (native run)"""
    mod = types.ModuleType(("sxh_" if instrumented else "nat_") + name)
    mod.__file__ = path
    if instrumented:
        mod.__dict__["_S"] = rt
    common = os.path.join(os.path.dirname(path), "common.py")       # shared harness code, same namespace
    for f in ([common] if os.path.exists(common) and f_not_common(path) else []) + [path]:
        if instrumented:
            exec(compile_file(f, mod.__name__, rename=False, harness=True), mod.__dict__)
        else:
            exec(compile(open(f, encoding="utf-8").read(), f, "exec"), mod.__dict__)
    return mod

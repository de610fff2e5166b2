"""Module state of the code under test: recorded once after loading, put back before every path / native replay, so that
no run sees what another one left in a global, a class attribute, a default argument, a closure or a functools cache."""
import collections
import functools
import operator
import sys
import types

_log = []          # (object, kind, copy)
_mods = {}         # id(namespace) -> (namespace, copy)
_caches = []
_known = set()
CONT = (dict, list, set, bytearray, collections.deque)


def _mine(mod, prefixes):
    return isinstance(mod, str) and mod.startswith(prefixes)


def _walk(x, prefixes, depth=0):
    if depth > 12 or x is None or isinstance(x, (str, bytes, int, float, types.ModuleType)): return
    if isinstance(x, functools._lru_cache_wrapper):
        if id(x) not in _known:
            _known.add(id(x))
            _caches.append(x)
        return
    if isinstance(x, (tuple, frozenset)):
        for y in x: _walk(y, prefixes, depth + 1)
        return
    if isinstance(x, (staticmethod, classmethod)): return _walk(x.__func__, prefixes, depth + 1)
    if isinstance(x, property):
        for y in (x.fget, x.fset, x.fdel): _walk(y, prefixes, depth + 1)
        return
    if id(x) in _known: return
    if isinstance(x, CONT):
        _known.add(id(x))
        if isinstance(x, dict):
            _log.append((x, "dict", (list(x.keys()), list(x.values()))))
            for y in list(x.values()): _walk(y, prefixes, depth + 1)
        else:
            c = list(x)
            _log.append((x, "seq" if not isinstance(x, set) else "set", c))
            for y in c: _walk(y, prefixes, depth + 1)
        return
    if isinstance(x, types.FunctionType):
        if not _mine(x.__module__, prefixes): return
        _known.add(id(x))
        for y in (x.__defaults__ or ()): _walk(y, prefixes, depth + 1)
        for y in (x.__kwdefaults__ or {}).values(): _walk(y, prefixes, depth + 1)
        _log.append((x.__dict__, "dict", (list(x.__dict__.keys()), list(x.__dict__.values()))))
        for c in (x.__closure__ or ()):
            try:
                v = c.cell_contents
            except ValueError:
                continue
            if id(c) not in _known:
                _known.add(id(c))
                _log.append((c, "cell", v))
            _walk(v, prefixes, depth + 1)
        return
    if isinstance(x, type):
        if not _mine(x.__module__, prefixes): return
        _known.add(id(x))
        d = {k: v for k, v in x.__dict__.items() if k not in ("__dict__", "__weakref__")}
        _log.append((x, "class", d))
        for y in d.values(): _walk(y, prefixes, depth + 1)
        return
    d = getattr(x, "__dict__", None)
    if isinstance(d, dict) and _mine(type(x).__module__, prefixes):
        _known.add(id(x))
        _walk(d, prefixes, depth + 1)


def record(prefixes, extra=()):
    """all modules whose name starts with one of prefixes, and the namespaces given"""
    for n, m in list(sys.modules.items()):
        if m is not None and n.startswith(prefixes) and id(m.__dict__) not in _mods: _module(m.__dict__, prefixes)
    for ns in extra:
        if id(ns) not in _mods: _module(ns, prefixes)


def _module(ns, prefixes):
    _mods[id(ns)] = (ns, dict(ns))
    for k, v in list(ns.items()):
        if k not in ("_S", "__builtins__", "__loader__", "__spec__"): _walk(v, prefixes)


def _same(a, b):
    return len(a) == len(b) and all(map(operator.is_, a, b))


def restore():
    for ns, c in _mods.values():
        if len(ns) != len(c) or not all(map(operator.is_, ns.values(), c.values())):
            ns.clear()
            ns.update(c)
    for x, kind, c in _log:
        if kind == "dict":
            if not (len(x) == len(c[0]) and all(map(operator.is_, x.keys(), c[0])) and all(map(operator.is_, x.values(), c[1]))):
                x.clear()
                for k, v in zip(*c): x[k] = v
        elif kind == "seq":
            if not _same(x, c):
                x.clear()
                x.extend(c)
        elif kind == "set":
            if len(x) != len(c) or not all(y in x for y in c):
                x.clear()
                x.update(c)
        elif kind == "cell":
            if x.cell_contents is not c: x.cell_contents = c
        else:
            d = x.__dict__
            for k in [k for k in d if k not in c and k not in ("__dict__", "__weakref__")]: delattr(x, k)
            for k, v in c.items():
                if d.get(k, c) is not v: setattr(x, k, v)
    for f in _caches: f.cache_clear()

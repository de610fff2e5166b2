"""Numeric text: int()/float() of symbolic text, rendering and format specs."""
import re
import z3
from .core import cur, Unsupported
from .values import (NonFinite, Sym, SSeq, SInt, SBool, SFloat, DigitCh, mkbool, mkint, tb, and_, or_, not_, ch_in, ch_eq, ch_bv, ch_digit,
                     items, mask_of, DIGMASK, FULL, is_sym, concretise, from_decimal, nearest, as_int, tofloat, tofloat_exact, apx_of, rv, ireg)
from .strs import mkstr, SStr, SBytes, SByteArray, ch_map

WS = mask_of(" \t\n\r\x0b\x0c\x85\xa0")
BWS = mask_of(" \t\n\r\x0b\x0c")
SIGN = mask_of("+-")
HEXM = mask_of("0123456789abcdefABCDEF")


def _wide(cs):
    return any((isinstance(c, int) and c > 255) or (not isinstance(c, (int, DigitCh)) and c.size() > 8) for c in cs)


def run_nfa(cs, trans, start, accept):
    """trans: state -> [(mask, next)].  Returns bool/SBool: the text is accepted."""
    live = {start: True}
    memo = {}
    for i, c in enumerate(cs):
        nxt = {}
        for s, cond in live.items():
            for mask, t in trans.get(s, ()):
                k = (i, mask)
                if k not in memo:
                    memo[k] = ch_in(c, mask)
                p = memo[k]
                if p is False:
                    continue
                nxt.setdefault(t, []).append(and_(cond, p))
        live = {s: or_(*v) for s, v in nxt.items()}
        if not live:
            return False
    return or_(*[v for s, v in live.items() if s in accept])


def int_nfa(ws, digits):
    return ({"s": [(ws, "s"), (SIGN, "g"), (digits, "d")], "g": [(digits, "d")],
             "d": [(digits, "d"), (1 << 95, "u"), (ws, "t")], "u": [(digits, "d")], "t": [(ws, "t")]}, "s", {"d", "t"})


def hex_nfa(ws):
    z = mask_of("0")
    nz = HEXM & ~z
    x = mask_of("xX")
    u = 1 << 95
    tail = [(HEXM, "d"), (u, "u"), (ws, "t")]
    return ({"s": [(ws, "s"), (SIGN, "g"), (z, "z"), (nz, "d")], "g": [(z, "z"), (nz, "d")],
             "z": tail + [(x, "x")], "x": [(HEXM, "d"), (u, "u")], "d": tail, "u": [(HEXM, "d")], "t": [(ws, "t")]},
            "s", {"z", "d", "t"})


def parse_int(s, base=10):
    if isinstance(s, SByteArray):
        s = s.v
        if not is_sym(s): return int(s, base)
    cs = s.cs
    isstr = isinstance(s, SStr)
    if is_sym(base): base = concretise(base)
    if _wide(cs) or base not in (10, 16):
        return int(concretise(s, "int() of exotic text"), base)
    ws = WS if isstr else BWS
    if base == 10:
        ok = run_nfa(cs, *int_nfa(ws, DIGMASK))
        dm = DIGMASK
    else:
        ok = run_nfa(cs, *hex_nfa(ws))
        dm = HEXM
    if not bool(ok):
        raise ValueError("invalid literal for int() with base %d" % base)
    v = z3.IntVal(0)
    neg = []
    pure = True
    for c in cs:
        d = ch_in(c, dm)
        if d is False:
            pure = False
            n = ch_eq(c, 45)
            if n is not False: neg.append(n)
            continue
        dv = ch_digit(c) if base == 10 else hexval(c)
        if d is True:
            v = v * base + dv
        else:
            pure = False
            v = z3.If(d.t, v * base + dv, v)
            n = ch_eq(c, 45)
            if n is not False: neg.append(n)
    ng = or_(*neg)
    v = z3.simplify(v) if pure else v
    if ng is not False:
        v = z3.If(tb(ng), -v, v) if ng is not True else -v
    r = mkint(v)
    if pure and isinstance(r, SInt) and base == 10:
        r.parts = list(cs)
    return r


def hexval(c):
    if isinstance(c, int): return z3.IntVal(int(chr(c), 16) if chr(c) in "0123456789abcdefABCDEF" else 0)
    if isinstance(c, DigitCh): return c.t
    e = cur()
    key = ("hexd", c.get_id())
    hit = e.term_cache.get(key)
    if hit: return hit[0]
    t = z3.IntVal(0)
    for d in range(1, 16):
        ch = "%x" % d
        cond = c == z3.BitVecVal(ord(ch), c.size())
        if ch.upper() != ch:
            cond = z3.Or(cond, c == z3.BitVecVal(ord(ch.upper()), c.size()))
        t = z3.If(cond, z3.IntVal(d), t)
    e.term_cache[key] = (t, c)
    return t


def _float_nfa(ws):
    D, U = DIGMASK, 1 << 95
    P, E = mask_of("."), mask_of("eE")
    tr = {"s": [(ws, "s"), (SIGN, "g"), (D, "i"), (P, "p0")], "g": [(D, "i"), (P, "p0")],
          "i": [(D, "i"), (U, "iu"), (P, "p"), (E, "e"), (ws, "t")], "iu": [(D, "i")],
          "p": [(D, "f"), (E, "e"), (ws, "t")], "p0": [(D, "f")],
          "f": [(D, "f"), (U, "fu"), (E, "e"), (ws, "t")], "fu": [(D, "f")],
          "e": [(SIGN, "es"), (D, "ed")], "es": [(D, "ed")], "ed": [(D, "ed"), (U, "eu"), (ws, "t")], "eu": [(D, "ed")],
          "t": [(ws, "t")]}
    acc = {"i", "p", "f", "ed", "t"}
    for w in ("inf", "infinity", "nan"):
        prev = ["s", "g"]
        for i, ch in enumerate(w):
            st = "w" + w[:i + 1]
            for q in prev:
                tr.setdefault(q, [])
                arc = (mask_of(ch + ch.upper()), st)
                if arc not in tr[q]: tr[q].append(arc)
            prev = [st]
        tr.setdefault(prev[0], []).append((ws, "t"))
        acc.add(prev[0])
    return tr, "s", acc


def parse_float(s):
    if isinstance(s, SByteArray):
        s = s.v
        if not is_sym(s): return float(s)
    if _wide(s.cs):
        return float(concretise(s, "float() of exotic text"))
    ok = run_nfa(s.cs, *_float_nfa(WS if isinstance(s, SStr) else BWS))
    if not bool(ok):
        raise ValueError("could not convert string to float")
    e = cur()
    key = ("pf", tuple(c if isinstance(c, int) else ("t", (c.t if isinstance(c, DigitCh) else c).get_id()) for c in s.cs))
    hit = e.cache.get(key)
    if hit: return hit[0]
    f = SFloat(src=s)
    e.cache[key] = (f, s)
    return f


def plain_shape(cs):
    """fork on the shape [sign] digits [. digits] -> (neg, intpart, fracpart) or None.  The text is already known to
    be accepted by float()."""
    i = 0
    neg = False
    if cs and bool(ch_in(cs[0], SIGN)):
        neg = bool(ch_eq(cs[0], 45))
        i = 1
    ip, fp = [], []
    tgt = ip
    for c in cs[i:]:
        if bool(ch_in(c, DIGMASK)):
            tgt.append(c)
        elif tgt is ip and bool(ch_eq(c, 46)):
            tgt = fp
        else:
            return None
    return neg, ip, fp


def sig(cs):
    """number of digits after concrete leading zeros"""
    i = 0
    while i < len(cs) and cs[i] == 48: i += 1
    return len(cs) - i


def sci_shape(cs):
    """[sign] digits [. digits] e-XX with a concrete exponent -> (neg, intpart, fracpart) or None"""
    p = next((i for i, c in enumerate(cs) if isinstance(c, int) and c in (69, 101)), None)
    if p is None or not all(isinstance(c, int) for c in cs[p:]):
        return None
    ex = int("".join(map(chr, cs[p + 1:])))
    sh = plain_shape(cs[:p])
    if sh is None or not -30 < ex < 0: return None
    neg, ip, fp = sh
    a = [48] * (1 - ex - len(ip)) + ip if len(ip) <= -ex else ip
    return neg, a[:len(a) + ex], a[len(a) + ex:] + fp


def realise(f):
    if f.nf is not None: raise NonFinite(f)
    cs = f.src.cs
    ws = WS if isinstance(f.src, SStr) else BWS
    if not all(isinstance(c, int) for c in cs):     # blanks around the number
        while cs and bool(ch_in(cs[0], ws)): cs = cs[1:]
        while cs and bool(ch_in(cs[-1], ws)): cs = cs[:-1]
    sh = plain_shape(cs)
    if sh is None: sh = sci_shape(cs)
    if sh is None:
        v = concretise(f.src, "float() text with exponent, underscore, blanks or inf/nan")
        x = float(v)
        if x != x or x in (float("inf"), float("-inf")):
            f.nf = x
            raise NonFinite(f)
        from .values import rv
        f._r = rv(x)
        return
    neg, ip, fp = sh
    n = len(fp)
    v = z3.IntVal(0)
    for c in ip + fp:
        v = v * 10 + ch_digit(c)
    v = z3.simplify(v)
    if neg: v = z3.simplify(-v)
    if n == 0:
        if len(ip) <= 15 and z3.is_int_value(v) is False:
            g = tofloat_exact(v, 10 ** len(ip))
        else:
            g = from_decimal(v * 10, 1)
    else:
        g = from_decimal(v, n)
    if not isinstance(g, SFloat):
        f._r = rv(g)
        f.apx = apx_of(g)
        f.dec = (z3.IntVal(v.as_long() * (1 if n else 10)), n or 1) if sig(ip + fp) <= 15 else None
        return
    f._r, f.lazy, f.apx = g._r, g.lazy, g.apx
    if f._r is None: f.lazy = lambda: g.r
    if sig(ip + fp) <= 15:
        f.dec = g.dec


# --------------------------------------------------------------- rendering
def digits_of(t, nd):
    """nd decimal digits (DigitCh) of Int term t, 0 <= t < 10^nd"""
    e = cur()
    if z3.is_int_value(t):
        return [ord(x) for x in str(t.as_long()).zfill(nd)]
    key = ("digs", t.get_id(), nd)
    hit = e.cache.get(key)
    if hit: return list(hit[0])
    ds = [z3.Int(e.newname("d")) for _ in range(nd)]
    s = z3.Sum([d * 10 ** (nd - 1 - i) for i, d in enumerate(ds)]) if nd > 1 else ds[0]
    e.define(z3.And([s == t] + [z3.And(d >= 0, d <= 9) for d in ds]))
    for d in ds: ireg(d, 0, 9)
    r = [DigitCh(d) for d in ds]
    e.cache[key] = (r, t)
    return list(r)


def uint_chars(t, minw=1, maxd=40):
    """decimal digits of non-negative Int term t without leading zeros (at least minw digits, zero padded)"""
    nd = minw
    while nd < maxd and not bool(mkbool(t < 10 ** nd)):
        nd += 1
    if nd >= maxd:
        raise Unsupported("integer too long to render")
    return digits_of(t, nd)


def int_str(x):
    p = getattr(x, "parts", None) if hasattr(x, "parts") else None
    if x.b is not None:
        t = x.t
        return mkstr(uint_chars(t))
    if bool(x < 0):
        return mkstr([45] + uint_chars(-x.t))
    if p and (len(p) == 1 or bool(not_(ch_in(p[0], mask_of("0"))))):
        return mkstr(p)
    return mkstr(uint_chars(x.t))


def _is_neg_zero_src(f):
    return f.src is not None and f._r is not None


def dec_chars(k, n, pad_int=1, strip=True):
    """k >= 0: text of k/10^n; strip trailing zeros of the fraction down to one digit if strip"""
    cs = uint_chars(k, n + pad_int) if n else uint_chars(k, pad_int)
    if n == 0:
        return cs, []
    ip, fp = cs[:-n], cs[-n:]
    if strip:
        while len(fp) > 1 and bool(ch_eq(fp[-1], 48)):
            fp = fp[:-1]
    return ip, fp


def float_repr(f):
    """repr of a float; needs a decimal it is the double of (else concretise)"""
    if f.src is not None:
        sh = plain_shape(f.src.cs)
        if sh is not None and len(sh[1]) + len(sh[2]) <= 15:
            neg, ip, fp = sh
            zero = and_(*[ch_eq(c, 48) for c in ip + fp])
            if bool(zero):
                return "-0.0" if neg else "0.0"
            return mkstr(_norm(neg, list(ip), list(fp)))
    f.ap()
    if f.dec is None:
        return repr(concretise(f, "repr of a computed float"))
    k, n = f.dec
    if bool(mkbool(z3.Or(k >= 10 ** 15, k <= -10 ** 15))):
        return repr(concretise(f, "repr of a float with more than 15 digits"))
    neg = bool(mkbool(k < 0))
    kk = -k if neg else k
    cs = uint_chars(z3.simplify(kk), n + 1)
    return mkstr(_norm(neg, cs[:-n] if n else cs, cs[-n:] if n else []))


def _norm(neg, ip, fp):
    """shortest repr layout of decimal ip.fp (<= 15 digits)"""
    while len(ip) > 1 and bool(ch_eq(ip[0], 48)):
        ip = ip[1:]
    if not ip: ip = [48]
    if not fp: fp = [48]
    while len(fp) > 1 and bool(ch_eq(fp[-1], 48)):
        fp = fp[:-1]
    sg = [45] if neg else []
    if len(ip) == 1 and bool(ch_eq(ip[0], 48)) and len(fp) > 4:
        z = 0
        while z < len(fp) and bool(ch_eq(fp[z], 48)):
            z += 1
        if z == len(fp):
            return sg + [48, 46, 48]
        if z >= 4:
            m = fp[z:]
            e = z + 1
            return sg + m[:1] + ([46] + m[1:] if len(m) > 1 else []) + [ord(c) for c in "e-%02d" % e]
    return sg + ip + [46] + fp


def fixed(f, prec):
    """format(f, '.{prec}f') for a float"""
    f.ap()
    if f.dec and f.dec[1] <= prec:
        k = f.dec[0] * 10 ** (prec - f.dec[1])
    else:
        k = nearest(f, prec)
    neg = bool(f < 0)
    kk = z3.simplify(-k) if neg else k
    ip, fp = dec_chars(kk, prec, strip=False)
    return ([45] if neg else []), ip + ([46] + fp if prec else [])


SPEC = re.compile(r"(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?(?P<z>z)?(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?(?P<sep>[,_])?(?:\.(?P<prec>\d+))?(?P<type>[bcdeEfFgGnosxX%])?$", re.S)


def fmt(x, spec=""):
    """format(x, spec) -> str or SStr"""
    if is_sym(spec):
        spec = concretise(spec, "format spec")
    if not is_sym(x):
        if spec == "" and type(x) not in (str, int, float):
            from . import rt
            if rt._insts(x): return to_str(x)
        return format(x, spec)
    from . import dt
    if isinstance(x, dt.SDT):
        return x.fmt(spec)
    if hasattr(x, "fmt"): return x.fmt(spec)
    if isinstance(x, SBool):
        if spec == "": return "True" if bool(x) else "False"
        x = as_int(x)
    if isinstance(x, SByteArray) or isinstance(x, SBytes):
        return format(concretise(x), spec)
    m = SPEC.match(spec)
    if m is None:
        raise ValueError("Invalid format specifier '%s'" % spec)
    g = m.groupdict()
    ty = g["type"]
    width = int(g["width"] or 0)
    fill, align = g["fill"], g["align"]
    if isinstance(x, SStr):
        if ty not in (None, "s"):
            raise ValueError("Unknown format code '%s' for object of type 'str'" % ty)
        if g["zero"] and not align: fill, align = "0", "<"
        cs = x.cs
        if g["prec"] is not None: cs = cs[:int(g["prec"])]
        return mkstr(_pad(cs, width, fill or " ", align or "<"))
    if g["sep"] or g["alt"] or g["z"]:
        return format(concretise(x, "format spec %s" % spec), spec)
    if isinstance(x, SInt):
        if ty in ("f", "F", "e", "E", "g", "G", "%"):
            x = tofloat(x)
        elif ty in (None, "d", "x", "X", "o", "b"):
            if g["prec"] is not None:
                raise ValueError("Precision not allowed in integer format specifier")
            if x.b is None and bool(x < 0):
                sg, ab = [45], SInt(-x.t)
            else:
                sg, ab = [], x
            if g["sign"] in ("+", " ") and not sg: sg = [ord(g["sign"])]
            # zero padding to the width: the leading zeros are digits, no case split on the length
            z = width - len(sg) if (g["zero"] and not align or fill == "0" and align in (">", "=")) and not sg else 1
            if ty in (None, "d"):
                cs = items(int_str(ab)) if z <= 1 else uint_chars(ab.t, z)
            else:
                cs = radix_chars(ab, {"x": 16, "X": 16, "o": 8, "b": 2}[ty], ty == "X", max(1, z))
            return _num_pad(sg, cs, width, fill, align, g["zero"])
        else:
            return format(concretise(x), spec)
    if isinstance(x, SFloat):
        if ty in ("f", "F"):
            sg, cs = fixed(x, int(g["prec"]) if g["prec"] is not None else 6)
        elif ty is None and g["prec"] is None:
            cs = items(float_repr(x))
            sg = []
            if cs and cs[0] == 45: sg, cs = [45], cs[1:]
        else:
            return format(concretise(x, "format spec %s of a float" % spec), spec)
        if g["sign"] in ("+", " ") and not sg: sg = [ord(g["sign"])]
        return _num_pad(sg, cs, width, fill, align, g["zero"])
    raise Unsupported("format of %s" % type(x).__name__)


def _num_pad(sg, cs, width, fill, align, zero):
    if zero and not align: fill, align = "0", "="
    align = align or ">"
    fill = fill or " "
    if align == "=":
        return mkstr(sg + [ord(fill)] * max(0, width - len(sg) - len(cs)) + cs)
    return mkstr(_pad(sg + cs, width, fill, align))


def _pad(cs, width, fill, align):
    n = max(0, width - len(cs))
    f = ord(fill)
    if align == "<": return cs + [f] * n
    if align in (">", "="): return [f] * n + cs
    l = n // 2
    return [f] * l + cs + [f] * (n - l)


def radix_chars(x, base, up, nd=1):
    bits = {16: 4, 8: 3, 2: 1}[base]
    digs = "0123456789ABCDEF" if up else "0123456789abcdef"
    if x.b is not None:
        w = x.b.size()
        while nd * bits < w and not bool(mkbool(z3.ULT(x.b, z3.BitVecVal(1 << (nd * bits), w)))):
            nd += 1
        b = x.b if nd * bits <= w else z3.ZeroExt(nd * bits - w, x.b)
        out = []
        for i in range(nd - 1, -1, -1):
            nib = z3.simplify(z3.Extract(i * bits + bits - 1, i * bits, b))
            out.append(nib_ch(nib, digs))
        return out
    while not bool(mkbool(x.t < base ** nd)):
        nd += 1
        if nd > 64: raise Unsupported("radix rendering of a huge integer")
    e = cur()
    ds = [z3.Int(e.newname("h")) for _ in range(nd)]
    e.define(z3.And([z3.Sum([d * base ** (nd - 1 - i) for i, d in enumerate(ds)] + [z3.IntVal(0)]) == x.t] +
                    [z3.And(d >= 0, d < base) for d in ds]))
    out = []
    for d in ds:
        t = z3.BitVecVal(48, 8)
        for v in range(1, base):
            t = z3.If(d == v, z3.BitVecVal(ord(digs[v]), 8), t)
        e.dom[t.get_id()] = mask_of(digs[:base])
        e.keep.append(t)
        out.append(t)
    return out


def nib_ch(nib, digs):
    if z3.is_bv_value(nib):
        return ord(digs[nib.as_long()])
    e = cur()
    key = ("nib", nib.get_id(), digs[-1])
    hit = e.term_cache.get(key)
    if hit:
        t = hit[0]
    else:
        w = nib.size()
        z = z3.ZeroExt(8 - w, nib)
        t = z + z3.BitVecVal(48, 8)
        if w == 4:
            t = z3.If(z3.ULT(nib, 10), t, z + z3.BitVecVal(ord(digs[10]) - 10, 8))
        e.term_cache[key] = (t, nib)
    e.dom[t.get_id()] = mask_of(digs[:1 << nib.size()])
    return t


def chars_of(x):
    """str(x) as item list"""
    return items(to_str(x))


def to_str(x):
    if not is_sym(x):
        if isinstance(x, BaseException) and len(x.args) == 1:
            return to_str(x.args[0])
        from . import rt
        if not isinstance(x, type) and rt.is_instr(type(x)): return rt.call(type(x).__str__, x)
        return str(x)
    if isinstance(x, SStr): return x
    if isinstance(x, SInt): return int_str(x)
    if isinstance(x, SFloat): return float_repr(x)
    if isinstance(x, SBool): return "True" if bool(x) else "False"
    from . import dt
    if isinstance(x, dt.SDT): return x.fmt("")
    return str(concretise(x, "str() of %s" % x._pt.__name__))


def to_repr(x):
    if not is_sym(x):
        if type(x) in (list, tuple, dict):
            from .values import has_sym
            if has_sym(x):
                if type(x) is dict:
                    out = "{"
                    for i, (k, v) in enumerate(x.items()):
                        out = out + (", " if i else "") + to_repr(k) + ": " + to_repr(v)
                    return out + "}"
                out = "[" if type(x) is list else "("
                for i, y in enumerate(x):
                    out = out + (", " if i else "") + to_repr(y)
                return out + ("]" if type(x) is list else (",)" if len(x) == 1 else ")"))
        from . import rt
        if not isinstance(x, (type, BaseException)) and rt.is_instr(type(x)): return rt.call(type(x).__repr__, x)
        return repr(x)
    if isinstance(x, (SInt, SFloat, SBool)): return to_str(x)
    if isinstance(x, SStr):
        has1 = or_(*[ch_eq(c, 39) for c in x.cs])
        q = 39
        if bool(has1):
            has2 = or_(*[ch_eq(c, 34) for c in x.cs])
            if not bool(has2): q = 34
        plain = mask_of(c for c in range(256) if chr(c).isprintable()) & ~(1 << 92) & ~(1 << q)
        out = [q]
        for c in x.cs:
            if isinstance(c, DigitCh) or bool(ch_in(c, plain, lambda v: chr(v).isprintable())):
                out.append(c)
            elif bool(ch_eq(c, 92)): out += [92, 92]
            elif bool(ch_eq(c, q)): out += [92, q]
            elif bool(ch_eq(c, 10)): out += [92, 110]
            elif bool(ch_eq(c, 13)): out += [92, 114]
            elif bool(ch_eq(c, 9)): out += [92, 116]
            else:
                if isinstance(c, int): v = c
                elif c.size() == 8:
                    nib = lambda hi, lo: z3.simplify(z3.Extract(hi, lo, c))
                    out += [92, 120, nib_ch(nib(7, 4), "0123456789abcdef"), nib_ch(nib(3, 0), "0123456789abcdef")]
                    continue
                else:
                    from .values import concretise_ch
                    v = concretise_ch(c)
                out += [ord(y) for y in repr(chr(v))[1:-1]]
        out.append(q)
        return mkstr(out)
    return repr(concretise(x, "repr() of %s" % x._pt.__name__))


PCT = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\d+|\*)?(?:\.(?P<prec>\d+))?(?P<type>[diouxXeEfFgGcrsa%])", re.S)


def percent(tpl, args):
    """tpl % args with symbolic args"""
    if isinstance(tpl, bytes):
        return tpl % concretise(args)
    tup = args if isinstance(args, tuple) else (args,)
    if not isinstance(args, dict):
        args0 = None
    i = pos = 0
    out = ""
    for m in PCT.finditer(tpl):
        out = out + tpl[pos:m.start()]
        pos = m.end()
        g = m.groupdict()
        if g["type"] == "%":
            out = out + "%"
            continue
        if g["key"] is not None:
            v = args[g["key"]]
        else:
            if i >= len(tup):
                raise TypeError("not enough arguments for format string")
            v = tup[i]
            i += 1
        fl = g["flags"]
        ty = g["type"]
        if ty in "sra":
            s = to_str(v) if ty == "s" else to_repr(v)
            if g["prec"]: s = s[:int(g["prec"])]
            spec = ("<" if "-" in fl else ">") + (g["width"] or "") + "s"
            out = out + fmt(s, spec) if is_sym(s) else out + format(s, spec)
            continue
        if is_sym(v) and isinstance(v, SSeq) and ty != "c":
            raise TypeError("%%%s format: a real number is required, not str" % ty)
        if ty in "diu": ty = "d"
        if ty == "c" or "#" in fl or not is_sym(v):
            out = out + ("%" + fl + (g["width"] or "") + ("." + g["prec"] if g["prec"] else "") + g["type"]) % (concretise(v),)
            continue
        if ty in "dxXo" and isinstance(v, SFloat):
            from .values import f_trunc
            v = f_trunc(v)
        spec = ("<" if "-" in fl else "") + ("+" if "+" in fl else " " if " " in fl else "") + \
               ("0" if "0" in fl and "-" not in fl else "") + (g["width"] or "") + ("." + g["prec"] if g["prec"] else "") + ty
        out = out + fmt(v, spec)
    return out + tpl[pos:]


FIELD = re.compile(r"\{\{|\}\}|\{([^{}!:]*)(?:!([rsa]))?(?::((?:[^{}]|\{[^{}]*\})*))?\}")


def str_format(tpl, args, kw):
    out = ""
    pos = 0
    auto = 0
    for m in FIELD.finditer(tpl):
        out = out + tpl[pos:m.start()]
        pos = m.end()
        if m.group(0) in ("{{", "}}"):
            out = out + m.group(0)[0]
            continue
        name = m.group(1)
        parts = re.match(r"([^.\[]*)(.*)$", name)
        base, rest = parts.group(1), parts.group(2)
        if base == "":
            v = args[auto]
            auto += 1
        elif base.isdigit():
            v = args[int(base)]
        else:
            v = kw[base]
        for a, b in re.findall(r"\.(\w+)|\[([^\]]+)\]", rest):
            v = getattr(v, a) if a else v[int(b) if b.isdigit() else b]
        if m.group(2) in ("r", "a"): v = to_repr(v)
        elif m.group(2) == "s": v = to_str(v)
        spec = m.group(3) or ""
        if "{" in spec:
            spec = str_format(spec, args[auto:], kw) if "{}" in spec else str_format(spec, args, kw)
        out = out + fmt(v, spec)
    return out + tpl[pos:]

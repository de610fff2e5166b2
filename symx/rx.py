"""Regular expressions on symbolic text: derivations in priority order, each with per-position character masks."""
import re
import z3
try:
    from re import _parser as sp, _constants as sc
except ImportError:      # pragma: no cover
    import sre_parse as sp, sre_constants as sc
from .core import cur, Unsupported
from .values import (Sym, SSeq, DigitCh, ch_in, ch_eq, items, mask_of, FULL, DIGMASK, is_sym, and_, or_, not_, tb, mkbool,
                     concretise, SBool)
from .strs import mkstr, mkbytes, SStr, SBytes, _m

CAP = 4000
CAT = {sc.CATEGORY_DIGIT: _m(lambda c: chr(c).isdecimal()), sc.CATEGORY_SPACE: _m(lambda c: chr(c).isspace()),
       sc.CATEGORY_WORD: _m(lambda c: chr(c).isalnum() or c == 95)}
ACAT = {sc.CATEGORY_DIGIT: DIGMASK, sc.CATEGORY_SPACE: mask_of(" \t\n\r\x0b\x0c"),
        sc.CATEGORY_WORD: mask_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")}


class TooWide(Exception):
    pass


class Matcher:
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, re.Pattern):
            flags = pattern.flags
            pattern = pattern.pattern
        self.isbytes = isinstance(pattern, bytes)
        self.tree = sp.parse(pattern, flags)
        self.flags = self.tree.state.flags | flags
        self.ngroups = self.tree.state.groups
        self.groupdict = dict(self.tree.state.groupdict)

    def cat(self, c):
        neg = {sc.CATEGORY_NOT_DIGIT: sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_SPACE: sc.CATEGORY_SPACE,
               sc.CATEGORY_NOT_WORD: sc.CATEGORY_WORD}
        t = ACAT if (self.isbytes or self.flags & re.ASCII) else CAT
        if c in neg:
            return FULL & ~t[neg[c]]
        return t[c]

    def setmask(self, its):
        m = 0
        negate = False
        for op, av in its:
            if op is sc.NEGATE: negate = True
            elif op is sc.LITERAL: m |= 1 << av if av < 256 else 0
            elif op is sc.RANGE: m |= mask_of(range(av[0], min(av[1], 255) + 1))
            elif op is sc.CATEGORY: m |= self.cat(av)
            else: raise Unsupported("regex set item %s" % op)
        m = self.fold(m)
        return FULL & ~m if negate else m

    def fold(self, m):
        if self.flags & re.IGNORECASE:
            for c in range(65, 91):
                if m >> c & 1 or m >> (c + 32) & 1:
                    m |= (1 << c) | (1 << (c + 32))
        return m

    # generator over (pos, spans, masks)
    def run(self, cs, start):
        self.cs = cs
        self.n = len(cs)
        self.count = 0
        yield from self.seq(list(self.tree), 0, start, {}, {})

    def one(self, pos, mask, masks):
        if pos >= self.n:
            return None
        c = self.cs[pos]
        if isinstance(c, int):
            if c > 255: raise TooWide()
            return masks if mask >> c & 1 else None
        if not isinstance(c, DigitCh) and c.size() != 8:
            raise TooWide()
        cur_m = masks.get(pos, FULL) & mask
        if isinstance(c, DigitCh):
            d = DIGMASK
        else:
            d = cur().dom.get(c.get_id(), FULL)
        if cur_m & d == 0:
            return None
        if cur_m & d == masks.get(pos, FULL) & d:
            return masks
        m2 = dict(masks)
        m2[pos] = cur_m
        return m2

    def seq(self, nodes, i, pos, spans, masks):
        if i == len(nodes):
            yield pos, spans, masks
            return
        op, av = nodes[i]
        nxt = lambda p, s, m: self.seq(nodes, i + 1, p, s, m)
        if op is sc.LITERAL:
            if av > 255:
                return
            m = self.one(pos, self.fold(1 << av), masks)
            if m is not None: yield from nxt(pos + 1, spans, m)
        elif op is sc.NOT_LITERAL:
            m = self.one(pos, FULL & ~self.fold(1 << av if av < 256 else 0), masks)
            if m is not None: yield from nxt(pos + 1, spans, m)
        elif op is sc.ANY:
            m = self.one(pos, FULL if self.flags & re.DOTALL else FULL & ~(1 << 10), masks)
            if m is not None: yield from nxt(pos + 1, spans, m)
        elif op is sc.IN:
            m = self.one(pos, self.setmask(av), masks)
            if m is not None: yield from nxt(pos + 1, spans, m)
        elif op is sc.CATEGORY:
            m = self.one(pos, self.cat(av), masks)
            if m is not None: yield from nxt(pos + 1, spans, m)
        elif op is sc.BRANCH:
            for alt in av[1]:
                for p, s, m in self.seq(list(alt), 0, pos, spans, masks):
                    yield from nxt(p, s, m)
        elif op is sc.SUBPATTERN:
            g, add, sub, body = av
            if add or sub: raise Unsupported("regex inline flags")
            for p, s, m in self.seq(list(body), 0, pos, spans, masks):
                if g is not None:
                    s = dict(s)
                    s[g] = (pos, p)
                yield from nxt(p, s, m)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            yield from self.rep(list(body), lo, hi, op is sc.MAX_REPEAT, 0, pos, spans, masks, nxt)
        elif op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                if pos == 0 and not (self.flags & re.MULTILINE): yield from nxt(pos, spans, masks)
                elif self.flags & re.MULTILINE: raise Unsupported("regex multiline")
            elif av is sc.AT_END_STRING:
                if pos == self.n: yield from nxt(pos, spans, masks)
            elif av is sc.AT_END:
                if self.flags & re.MULTILINE: raise Unsupported("regex multiline")
                if pos == self.n: yield from nxt(pos, spans, masks)
                elif pos == self.n - 1:
                    m = self.one(pos, 1 << 10, masks)
                    if m is not None: yield from nxt(pos, spans, m)
            else:
                raise Unsupported("regex anchor %s" % av)
        elif op is getattr(sc, "ATOMIC_GROUP", None) or op is getattr(sc, "POSSESSIVE_REPEAT", None):
            raise Unsupported("regex %s" % op)
        else:
            raise Unsupported("regex op %s" % op)

    def rep(self, body, lo, hi, greedy, k, pos, spans, masks, nxt):
        self.count += 1
        if self.count > 200000:
            raise TooWide()

        def more():
            if hi is sc.MAXREPEAT or k < hi:
                for p, s, m in self.seq(body, 0, pos, spans, masks):
                    if p == pos and k >= lo:
                        continue
                    yield from self.rep(body, lo, hi, greedy, k + 1, p, s, m, nxt)
        if k < lo:
            yield from more()
        elif greedy:
            yield from more()
            yield from nxt(pos, spans, masks)
        else:
            yield from nxt(pos, spans, masks)
            yield from more()

    def cond(self, masks):
        return and_(*[ch_in(self.cs[p], m) for p, m in masks.items()])

    def at(self, cs, start, full=False):
        """decide the match at `start` (forks over span assignments) -> spans dict with key 0, or None"""
        alts = []         # (spanskey, spans, cond)
        for p, s, m in self.run(cs, start):
            if full and p != len(cs):
                continue
            s = dict(s)
            s[0] = (start, p)
            c = self.cond(m)
            if c is False:
                continue
            alts.append((tuple(sorted(s.items())), s, c))
            if c is True:
                break
            if len(alts) > CAP:
                raise TooWide()
        if not alts:
            return None
        keys = []
        for k, s, c in alts:
            if k not in keys: keys.append(k)
        if len(keys) == 1:
            any_ = or_(*[c for _, _, c in alts])
            return alts[0][1] if bool(any_) else None
        conds = {k: [] for k in keys}
        spans = {}
        prev = {k: [] for k in keys}
        seen = []
        for k, s, c in alts:
            spans[k] = s
            others = [d for kk, d in seen if kk != k]
            conds[k].append(and_(c, *[not_(d) for d in others]))
            seen.append((k, c))
        cl = [tb(or_(*conds[k])) for k in keys]
        none = z3.Not(z3.Or([tb(c) for _, _, c in alts]))
        i = cur().choose([z3.simplify(x) for x in cl + [none]])
        return spans[keys[i]] if i < len(keys) else None


class SMatch:
    def __init__(self, m, s, spans):
        self.m, self.string, self.spans = m, s, spans
        self.re = None

    def _g(self, k):
        if isinstance(k, str):
            if k not in self.m.groupdict: raise IndexError("no such group")
            k = self.m.groupdict[k]
        if k >= self.m.ngroups: raise IndexError("no such group")
        return k

    def group(self, *ks):
        def one(k):
            sp_ = self.spans.get(self._g(k))
            return None if sp_ is None else self.string[sp_[0]:sp_[1]]
        if not ks: return one(0)
        if len(ks) == 1: return one(ks[0])
        return tuple(one(k) for k in ks)

    def __getitem__(self, k): return self.group(k)
    def groups(self, default=None):
        return tuple(default if self.spans.get(i) is None else self.group(i) for i in range(1, self.m.ngroups))
    def groupdict(self, default=None):
        return {k: (default if self.spans.get(i) is None else self.group(i)) for k, i in self.m.groupdict.items()}
    def span(self, k=0): return self.spans.get(self._g(k), (-1, -1))
    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]
    def __bool__(self): return True
    @property
    def lastindex(self):
        ks = [k for k in self.spans if k]
        return max(ks) if ks else None


_cache = {}


def matcher(p, flags=0):
    k = (p, int(flags)) if not isinstance(p, re.Pattern) else p
    if k not in _cache:
        _cache[k] = Matcher(p, flags)
    return _cache[k]


def do(name, pat, flags, args, kw):
    """re.<name>(pattern, ...) with symbolic text"""
    if is_sym(pat):
        pat = concretise(pat, "regex pattern")
    m = matcher(pat, flags)
    try:
        return _do(name, m, *args, **kw)
    except (TooWide, Unsupported) as e:
        rp = re.compile(pat, flags) if not isinstance(pat, re.Pattern) else pat
        return getattr(rp, name)(*[concretise(a, "regex %s" % name) for a in args], **{k: concretise(v) for k, v in kw.items()})


def _do(name, m, *args, **kw):
    if name in ("match", "fullmatch", "search"):
        s = args[0] if args else kw["string"]
        if len(args) > 1 or kw: raise Unsupported("regex pos")
        if not is_sym(s) or (isinstance(s, SBytes) != m.isbytes):
            if is_sym(s): raise TypeError("cannot use a string pattern on a bytes-like object")
        cs = items(s)
        if name == "search":
            for i in range(len(cs) + 1):
                sp_ = m.at(cs, i)
                if sp_ is not None: return SMatch(m, s, sp_)
            return None
        sp_ = m.at(cs, 0, full=name == "fullmatch")
        return SMatch(m, s, sp_) if sp_ is not None else None
    if name == "split":
        s = args[0] if args else kw["string"]
        mx = args[1] if len(args) > 1 else kw.get("maxsplit", 0)
        out, last = [], 0
        for mm in _iter(m, s, mx):
            out.append(s[last:mm.start()])
            out += list(mm.groups())
            last = mm.end()
        out.append(s[last:])
        return out
    if name in ("findall", "finditer"):
        s = args[0] if args else kw["string"]
        ms = list(_iter(m, s, 0))
        if name == "finditer": return iter(ms)
        return [(x.group() if m.ngroups == 1 else x.group(1) if m.ngroups == 2 else
                 tuple(g if g is not None else s[:0] for g in x.groups())) for x in ms]
    if name in ("sub", "subn"):
        repl = args[0]
        s = args[1]
        cnt = args[2] if len(args) > 2 else kw.get("count", 0)
        out, last, n = s[:0], 0, 0
        for mm in _iter(m, s, cnt):
            out = out + s[last:mm.start()]
            if callable(repl):
                from . import rt
                out = out + rt.call(repl, mm)
            else:
                if "\\" in repl:
                    raise Unsupported("regex template")
                out = out + repl
            last = mm.end()
            n += 1
        out = out + s[last:]
        return (out, n) if name == "subn" else out
    raise Unsupported("regex method %s" % name)


def _iter(m, s, mx):
    cs = items(s)
    i = n = 0
    while i <= len(cs):
        if mx and n >= mx: return
        sp_ = m.at(cs, i)
        if sp_ is None:
            i += 1
            continue
        yield SMatch(m, s, sp_)
        n += 1
        if sp_[0][1] == i: i += 1
        else: i = sp_[0][1]

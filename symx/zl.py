"""zlib for symbolic data: RFC 1950/1951/1952 streams of stored blocks, with exact checksums. Anything else that is certainly malformed
raises zlib.error, and what is neither is refused (Unsupported)."""
import gzip
import zlib
import z3
from . import values as V
from .core import Unsupported
from .strs import SByteArray, mkbytes


class Truncated(zlib.error): pass


def adler(cs):
    """the 4 bytes of the Adler-32 of the characters"""
    assert len(cs) < 200       # no reduction modulo 65521 up to there
    a, b = z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)
    for c in cs:
        a = a + z3.ZeroExt(24, V.ch_bv(c))
        b = b + a
    b = z3.URem(b, z3.BitVecVal(65521, 32))
    return take(z3.simplify(b << 16 | a))


TABLE = None


def crc(cs):
    global TABLE
    if TABLE is None:
        TABLE = []
        for i in range(256):
            for _ in range(8): i = i >> 1 ^ (0xEDB88320 if i & 1 else 0)
            TABLE.append(i)
    t = z3.BitVecVal(0xFFFFFFFF, 32)
    for c in cs:
        x = z3.simplify(z3.Extract(7, 0, t) ^ V.ch_bv(c))
        s = z3.BitVecVal(0, 32)
        if z3.is_bv_value(x): s = z3.BitVecVal(TABLE[x.as_long()], 32)
        else:
            for k in range(8):      # the table is linear in the bits of its index
                s = s ^ z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(TABLE[1 << k], 32), z3.BitVecVal(0, 32))
        t = z3.simplify(z3.LShR(t, 8) ^ s)
    return take(z3.simplify(~t))[::-1]


def take(t):
    out = []
    for k in (24, 16, 8, 0):
        x = z3.simplify(z3.Extract(k + 7, k, t))
        out.append(x.as_long() if z3.is_bv_value(x) else x)
    return out


GZ = [0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255]


def stored(cs, fmt):
    """characters of the compressed form (one stored block) of characters"""
    n = len(cs)
    blk = [1, n & 255, n >> 8, ~n & 255, ~n >> 8 & 255] + list(cs)
    if fmt == "deflate": return blk
    conc = all(isinstance(c, int) for c in cs)
    if fmt == "zlib":
        return [0x78, 0x01] + blk + (list(zlib.adler32(bytes(cs)).to_bytes(4, "big")) if conc else adler(cs))
    return GZ + blk + (list(zlib.crc32(bytes(cs)).to_bytes(4, "little")) if conc else crc(cs)) + list(n.to_bytes(4, "little"))


def same(c, v):
    return bool(V.ch_eq(c, v))


def need(cs, i, n):
    if i + n > len(cs): raise Truncated("Error -5 while decompressing data: incomplete or truncated stream")


def inflate(cs, i):
    """(body, next position)"""
    out = []
    while True:
        need(cs, i, 1)
        if isinstance(cs[i], int): h = cs[i] & 7
        elif same(cs[i], 1): h = 1
        else:
            b = V.ch_bv(cs[i])
            if bool(V.mkbool(z3.Extract(2, 1, b) == 3)): raise zlib.error("Error -3 while decompressing data: invalid block type")
            raise Unsupported("zlib: symbolic block header")
        i += 1
        if h >> 1 == 3: raise zlib.error("Error -3 while decompressing data: invalid block type")
        if h >> 1: raise Unsupported("zlib: compressed block with symbolic content")
        need(cs, i, 4)
        l = [V.concretise(mkbytes([c]))[0] if not isinstance(c, int) else c for c in cs[i:i + 4]]
        n = l[0] | l[1] << 8
        if n ^ 0xFFFF != l[2] | l[3] << 8: raise zlib.error("Error -3 while decompressing data: invalid stored block lengths")
        need(cs, i + 4, n)
        out += cs[i + 4:i + 4 + n]
        i += 4 + n
        if h & 1: return out, i


def parse(data, wbits):
    """(body, unused)"""
    cs = list(V.items(data.v if isinstance(data, SByteArray) else data))
    need(cs, 0, 1)
    auto = wbits > 32
    if auto: wbits -= 32
    if wbits < 0:
        out, i = inflate(cs, 0)
        return out, cs[i:]
    if wbits > 16 or auto and same(cs[0], 0x1f):
        if len(cs) > 0 and not same(cs[0], 0x1f): raise zlib.error("Error -3 while decompressing data: incorrect header check")
        if len(cs) > 1 and not same(cs[1], 0x8b): raise zlib.error("Error -3 while decompressing data: incorrect header check")
        if len(cs) > 2 and not same(cs[2], 8): raise zlib.error("Error -3 while decompressing data: unknown compression method")
        need(cs, 0, 10)
        if not same(cs[3], 0): raise Unsupported("zlib: gzip flags")
        out, i = inflate(cs, 10)
        want = (list(zlib.crc32(bytes(out)).to_bytes(4, "little")) if all(isinstance(c, int) for c in out) else crc(out)) + list(len(out).to_bytes(4, "little"))
    else:
        need(cs, 0, 2)
        if not (same(cs[0], 0x78) and same(cs[1], 0x01)):
            a, b = V.ch_bv(cs[0]), V.ch_bv(cs[1])
            w = z3.Concat(a, b)
            if bool(V.mkbool(z3.simplify(z3.Or(z3.URem(w, 31) != 0, z3.Extract(3, 0, a) != 8, z3.UGT(z3.Extract(7, 4, a), 7))))):
                raise zlib.error("Error -3 while decompressing data: incorrect header check")
            if bool(V.mkbool(z3.simplify(z3.Extract(5, 5, b) == 1))): raise zlib.error("Error 2 while decompressing data")
        out, i = inflate(cs, 2)
        want = list(zlib.adler32(bytes(out)).to_bytes(4, "big")) if all(isinstance(c, int) for c in out) else adler(out)
    need(cs, i, len(want))
    for c, w in zip(cs[i:], want):
        if not bool(V.ch_eq(c, w)): raise zlib.error("Error -3 while decompressing data: incorrect data check")
    return out, cs[i + len(want):]


def decompress(data, /, wbits=15, bufsize=16384):
    return mkbytes(parse(data, wbits)[0])


def gz_decompress(data):
    out, rest = parse(data, 31)
    if rest: raise Unsupported("gzip: trailing data")
    return mkbytes(out)


class Decomp:
    def __init__(self, wbits=15, zdict=None):
        self.w, self.b, self.eof, self.unused_data, self.unconsumed_tail = wbits, [], False, b"", b""

    def decompress(self, data, max_length=0):
        if self.eof:
            self.unused_data = self.unused_data + data
            return b""
        self.b = self.b + list(V.items(data.v if isinstance(data, SByteArray) else data))
        if all(isinstance(c, int) for c in self.b):
            o = zlib.decompressobj(self.w)
            out = o.decompress(bytes(self.b))
            if not o.eof: return b""
            self.eof, self.unused_data = True, o.unused_data
            return out
        try: out, rest = parse(mkbytes(self.b), self.w)
        except Truncated: return b""
        self.eof, self.unused_data = True, mkbytes(rest)
        return mkbytes(out)

    def flush(self, length=0): return b""

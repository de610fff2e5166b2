"""C26 compressed chunks."""
BOUNDS = {"quick": "gzip, zlib and deflate, bodies of 1..3 chunks of 0..3 bytes of any value sent as stored blocks, any one cut (single chunks: any two cuts), with and without final chunk, buffer sizes 5 and 4096; chunks that do not decompress (any 1..4 bytes with an invalid header, streams cut short by 1..all bytes, any wrong checksum byte, another format's stream) between good ones; two sentences with any field characters through the NMEA reader; fixed bodies compressed by zlib at level 9 (up to 70000 bytes), any one cut",
          "thorough": "as quick with bodies of up to 6 bytes and two cuts everywhere"}
ASSUMPTIONS = ["symbolic bodies are compressed as stored blocks (RFC 1950/1951/1952, checksums computed exactly); zlib's inflate on Huffman-coded blocks is run natively on fixed bodies only",
               "recv(n) returns 1..n bytes, b'' when the peer has closed"]
FLAG = {"gzip": 2, "zlib": 4, "deflate": 8}


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for f in FLAG:
        for sizes in ((0,), (1,), (2,), (3,), (1, 1), (0, 2), (2, 1, 1)) + (((4,), (6,), (3, 3)) if big else ()):
            for fin in (0, 1):
                for bs in (5, 4096):
                    out.append(dict(name="stream/%s/%s/%d/%d" % (f, "-".join(map(str, sizes)), fin, bs), fn="h_stream", params=dict(f=f, sizes=sizes, fin=fin, bs=bs, cuts=2 if len(sizes) == 1 and bs > 5 or big else 1), cost=100, max_paths=400000, max_time=700))
        for kind in ("header", "short", "checksum", "format"):
            if (f, kind) == ("deflate", "checksum"): continue
            for n in ((1, 2, 4) if kind != "format" else (2,)):
                out.append(dict(name="bad/%s/%s/%d" % (kind, f, n), fn="h_bad", params=dict(f=f, kind=kind, n=n), cost=100, max_paths=400000))
        out.append(dict(name="reader/%s" % f, fn="h_reader", params=dict(f=f), cost=200, max_paths=400000))
        for n in (0, 30, 300, 70000):
            out.append(dict(name="real/%s/%d" % (f, n), fn="h_real", params=dict(f=f, n=n), cost=100, max_paths=400000))
    return out


def chunk(d, case="x"):
    return (("%" + case) % len(d)).encode("utf-8") + b"\r\n" + d + b"\r\n"


def cutter(S, n, cuts):
    at, lo = [], 1
    for i in range(cuts):
        if lo >= n: break
        at.append(S.pick("cut%d" % i, list(range(lo, n))))
        lo = at[-1] + 1
    at.append(n)
    done = [0]

    def cut(m):
        k = min(m, [x for x in at if x > done[0]][0] - done[0])
        done[0] += k
        return k
    return cut


def collect(S, st, f, cuts, bs=4096):
    W = S.mod("socketwrapper").SocketWrapper
    peer = Peer(st, cutter(S, len(st), cuts))
    w = W(peer, encoding=1 | FLAG[f], bufsize=bs)
    got = b""
    while True:
        x = w.read(1)
        if not len(x): break
        got = got + x
        if len(got) > 100: break
    S.check(peer.sent == len(st), "everything was received")
    return got


def h_stream(S, p):
    st, body = b"", b""
    for i, k in enumerate(p["sizes"]):
        b = S.bytes("b%d" % i, k) if k else b""
        st = st + chunk(S.compress(b, p["f"]), "X" if i else "x")
        body = body + b
    if p["fin"]: st = st + b"0\r\n\r\n"
    n0 = S.log_count()
    got = collect(S, st, p["f"], p["cuts"], p["bs"])
    S.check(S.eq(got, body), "exactly the uncompressed body")
    S.check(S.log_count() == n0, "nothing to complain about")
    S.observe(got)


def h_bad(S, p):
    f, kind, n = p["f"], p["kind"], p["n"]
    good = [S.bytes("g0", 1), S.bytes("g1", 2)]
    if kind == "header":
        bad = S.bytes("bad", n)
        c = bad[0]
        if f == "gzip": S.assume(c != 0x1f)
        elif f == "zlib": S.assume((c & 15) != 8)
        else: S.assume((c & 6) == 6)
    elif kind == "format":
        b = S.bytes("bad", n)
        bad = S.compress(b, "zlib" if f != "zlib" else "gzip")
        if f == "deflate": bad = b"\x07" + bad
    else:
        bad = S.compress(S.bytes("bad", n), f)
        if kind == "short": bad = bad[:S.pick("keep", list(range(1, len(bad))))]
        else:
            i = len(bad) - 1 - S.pick("which", [0, 1, 2, 3]) - (4 if f == "gzip" else 0)
            w = S.bytes("wrong", 1)
            S.assume(w[0] != bad[i])
            bad = bad[:i] + w + bad[i + 1:]
    st = chunk(S.compress(good[0], f)) + chunk(bad) + chunk(S.compress(good[1], f)) + b"0\r\n\r\n"
    n0 = S.log_count()
    got = collect(S, st, f, 1 if kind in ("header", "format") else 0)
    S.check(S.log_count() > n0, "logged")
    S.check(len(got) >= 3, "the good chunks are delivered")
    S.check(S.all(S.eq(got[:1], good[0]), S.eq(got[-2:], good[1])), "the good chunks, in order")
    S.observe(got)


def h_reader(S, p):
    import socket
    R = S.mod("nmeareader").NMEAReader
    raws = [ckd(S, "GNTHS,,A").encode("utf-8"), ckd(S, "GNZZ1," + S.str("c", 1, FIELD)).encode("utf-8")]
    body = raws[0] + raws[1]
    i = S.pick("split", [len(raws[0]), len(raws[0]) - 1, 3])          # chunk boundary
    st = chunk(S.compress(body[:i], p["f"])) + chunk(S.compress(body[i:], p["f"])) + b"0\r\n\r\n"
    peer = Peer(st, cutter(S, len(st), 1))

    class Sock(socket.socket):
        def __init__(self): pass
        def recv(self, n, *f): return peer.recv(n, *f)
        def close(self): pass
    got = list(R(Sock(), encoding=1 | FLAG[p["f"]]))
    S.check(len(got) == 2 and S.all([S.eq(g[0], r) for g, r in zip(got, raws)]), "both sentences, byte exact")
    S.observe([g[0] for g in got])


def h_real(S, p):
    """Huffman-coded blocks of zlib itself (fixed bodies)"""
    import zlib
    W = S.mod("socketwrapper").SocketWrapper
    n = p["n"]
    body = (b"$GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A*68\r\n" * (n // 50 + 1))[:n]
    c = zlib.compressobj(9, zlib.DEFLATED, {"gzip": 31, "zlib": 15, "deflate": -15}[p["f"]])
    d = c.compress(body) + c.flush()
    st = chunk(d) + chunk(d, "X") + b"0\r\n\r\n"
    peer = Peer(st, cutter(S, len(st), 1 if n < 1000 else 0))
    w = W(peer, encoding=1 | FLAG[p["f"]])
    S.check(w.read(2 * n) == body + body, "exactly the uncompressed body")
    S.check(len(w.read(1)) == 0, "and nothing else")

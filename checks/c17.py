"""C17 chunked transfer decoding is independent of segmentation."""
BOUNDS = {"quick": "bodies of 1..3 chunks of 1..3 bytes of any value: every segmentation of streams of up to 16 bytes, any three cuts of longer ones; chunks of 10, 15, 16, 17, 26, 31, 171, 255, 256, 300 and 4096 bytes (symbolic bytes at start and end), sizes in either letter case and with leading zeros, any two cuts near every boundary; with and without final chunk; timeouts between segments; buffer sizes 1, 3, 7, 4096; the NMEA reader over a chunked socket",
          "thorough": "as quick with every segmentation of streams of up to 18 bytes, any four cuts of longer ones"}
ASSUMPTIONS = ["chunk-size lines are hex digits and CR LF (no extensions)", "recv(n) returns 1..n bytes, b'' when the peer has closed, or raises TimeoutError"]


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for sizes in ((1,), (2,), (3,), (6,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (2, 3)):
        for fin in (0, 1):
            n = sum(len("%x" % k) + k + 4 for k in sizes) + 5 * fin
            if n <= (18 if big else 16):
                out.append(dict(name="every/%s/%d" % ("-".join(map(str, sizes)), fin), fn="h_every", params=dict(sizes=sizes, fin=fin), cost=2 ** n, max_paths=400000, max_time=700))
            else:
                out.append(dict(name="cuts/%s/%d" % ("-".join(map(str, sizes)), fin), fn="h_cuts", params=dict(sizes=sizes, fin=fin, cuts=4 if big else 3), cost=n ** 3, max_paths=400000, max_time=700))
    for bs in (1, 3, 7, 4096):
        for sizes in ((2, 1), (1, 3)):
            out.append(dict(name="bufsize/%d/%s" % (bs, "-".join(map(str, sizes))), fn="h_cuts", params=dict(sizes=sizes, fin=1, cuts=2, bs=bs), cost=500, max_paths=400000))
            out.append(dict(name="timeout/%d/%s" % (bs, "-".join(map(str, sizes))), fn="h_cuts", params=dict(sizes=sizes, fin=1, cuts=1, bs=bs, gaps=1), cost=500, max_paths=400000))
    for k in (10, 15, 16, 17, 26, 31, 171, 255, 256, 300, 4096):
        for case in ("x", "X", "04x", "03X"):
            out.append(dict(name="size/%d/%s" % (k, case), fn="h_size", params=dict(k=k, case=case), cost=50, max_paths=400000))
    out.append(dict(name="direct", fn="h_direct", params=dict(n=5 if big else 4), cost=300, max_paths=400000))
    for bs in (5, 4096):
        out.append(dict(name="reader/%d" % bs, fn="h_reader", params=dict(bs=bs), cost=300, max_paths=400000))
    return out


def encode(S, chunks, fin, case="x"):
    r = b""
    for c in chunks:
        r = r + (("%" + case) % len(c) + "\r\n").encode("utf-8") + c + b"\r\n"
    return r + (b"0\r\n\r\n" if fin else b"")


def bodies(S, sizes):
    return [S.bytes("c%d" % i, k) for i, k in enumerate(sizes)]


def cutter(S, n, cuts, lo=1, positions=None):
    at = []
    for i in range(cuts):
        opts = [x for x in (positions or range(1, n)) if x >= lo and x < n]
        if not opts: break
        at.append(S.pick("cut%d" % i, opts))
        lo = at[-1] + 1
    at.append(n)
    done = [0]

    def cut(m):
        k = min(m, [x for x in at if x > done[0]][0] - done[0])
        done[0] += k
        return k
    return cut


def receive(S, stream, body, cut, bs=4096, gaps=0):
    W = S.mod("socketwrapper").SocketWrapper
    left = [gaps]
    k = [0]

    def gap(n):
        k[0] += 1
        if not left[0] or n <= 0: return None
        if S.pick("gap%d" % k[0], [False, True]):
            left[0] -= 1
            return "timeout"
    peer = Peer(stream, cut, gap if gaps else None)
    w = W(peer, encoding=1, bufsize=bs)
    got = b""
    while True:
        x = w.read(1)
        if not len(x):
            if peer.sent < len(stream) and peer.gaps < 10: continue
            break
        got = got + x
        S.check(len(got) <= len(body), "nothing that is not in the body")
    S.check(S.eq(got, body), "exactly the body")
    S.check(peer.sent == len(stream), "everything was received")
    S.observe(got)


def join(chunks):
    r = b""
    for c in chunks: r = r + c
    return r


def h_every(S, p):
    """every segmentation"""
    cs = bodies(S, p["sizes"])
    st = encode(S, cs, p["fin"])
    k = [0]

    def cut(m):
        k[0] += 1
        return S.length("seg%d" % k[0], 1, m)
    receive(S, st, join(cs), cut)


def h_cuts(S, p):
    cs = bodies(S, p["sizes"])
    st = encode(S, cs, p["fin"], S.pick("case", ["x", "X", "02x"]) if "bs" in p else "x")
    receive(S, st, join(cs), cutter(S, len(st), p["cuts"]), p.get("bs", 4096), p.get("gaps", 0))


def h_size(S, p):
    """larger chunks, cuts around every boundary"""
    k = p["k"]
    a, b, c = S.bytes("a", 2), S.bytes("b", 2), S.bytes("c", 1)
    big = a + bytes((i * 11 + 3) % 256 for i in range(k - 4)) + b
    order = S.pick("order", [0, 1]) if k < 300 else 0
    cs = [big, c] if order == 0 else [c, big]
    st = encode(S, cs, 1, p["case"])
    h = len(("%" + p["case"]) % k)
    h1 = len(("%" + p["case"]) % 1)
    off = 0 if order == 0 else h1 + 5
    body = off + h + 2
    pos = sorted({x for x in [off + 1, off + h, off + h + 1, body, body + 1, body + 5, body + k // 2, body + k - 1, body + k, body + k + 1, body + k + 2, body + k + 3, len(st) - 5, len(st) - 4, len(st) - 1] if 0 < x < len(st)})
    if k > 200: pos = pos[::2]
    receive(S, st, join(cs), cutter(S, len(st), 2, 1, pos))


def h_direct(S, p):
    """dechunk() itself: what it gives for both halves is the body"""
    W = S.mod("socketwrapper").SocketWrapper
    w = W(Peer(b"", lambda m: m), encoding=1)
    cs = [S.bytes("c0", S.length("n0", 1, p["n"])), S.bytes("c1", S.length("n1", 1, 2))]
    st = encode(S, cs, S.pick("fin", [0, 1]), S.pick("case", ["x", "02X"]))
    i = S.length("cut", 0, len(st))
    a, pa = w.dechunk(st[:i])
    b, pb = w.dechunk(pa + st[i:])
    S.check(S.eq(a + b, join(cs)), "both halves give the body")
    S.observe(a, b)


def h_reader(S, p):
    import socket
    R = S.mod("nmeareader").NMEAReader
    raws = [ckd(S, "GNTHS,,A").encode("utf-8"), ckd(S, "GNZZ1," + S.str("c", 1, FIELD)).encode("utf-8")]
    i = S.pick("split", [len(raws[0]), len(raws[0]) - 1, 3])          # chunk boundary
    body = raws[0] + raws[1]
    st = encode(S, [body[:i], body[i:]], 1, "X")
    peer = Peer(st, cutter(S, len(st), 2))

    class Sock(socket.socket):
        def __init__(self): pass
        def recv(self, n, *f): return peer.recv(n, *f)
        def close(self): pass
    got = list(R(Sock(), bufsize=p["bs"], encoding=1))
    S.check(len(got) == 2 and S.all([S.eq(g[0], r) for g, r in zip(got, raws)]), "both sentences, byte exact")
    S.observe([g[0] for g in got])

"""C16 socket data is reassembled exactly."""
BOUNDS = {"quick": "streams of 1..6 bytes of any value in every segmentation, buffer sizes 1, 2, 3, 5 and 4096, 0..2 gaps (timeout, close, reset, OSError) before any recv, operations: three from read(0), read(1), read(2), read(3), read(7), readline(), then read(1) to the end; readline of 8 bytes (CR, LF or other); 30 byte streams with any two cuts, 300 and 9000 byte streams cut at buffer boundaries, reads of up to all bytes; the NMEA reader over a socket: two sentences with any two cuts, buffer sizes 1, 16, 4096",
          "thorough": "as quick with streams of up to 8 bytes and three cuts"}
ASSUMPTIONS = ["recv(n) returns 1..n bytes, b'' when the peer has closed, or raises OSError / TimeoutError", "a readline() that meets a gap returns the bytes that have arrived"]


def tasks(tier, pkg):
    big = tier == "thorough"
    out = []
    for n in range(1, 9 if big else 7):
        for bs in (1, 2, 3, 5, 4096):
            out.append(dict(name="ops/%d/%d" % (n, bs), fn="h_ops", params=dict(n=n, bs=bs, gaps=0, ops=("r0", "r1", "r2", "r3", "r7", "line"), k=3), cost=3 ** n, max_paths=400000))
    for n in (1, 2, 3, 4, 5):
        for bs in (1, 2, 4096):
            out.append(dict(name="gaps/%d/%d" % (n, bs), fn="h_ops", params=dict(n=n, bs=bs, gaps=2, ops=("r1", "r2", "r3", "line"), k=2), cost=3 ** n, max_paths=400000))
    for n in (3, 5, 8) + ((9,) if big else ()):
        for bs in (1, 3, 4096):
            out.append(dict(name="line/%d/%d" % (n, bs), fn="h_line", params=dict(n=n, bs=bs), cost=3 ** n, max_paths=400000))
    for n in (30, 300, 9000):
        for bs in (16, 29, 4096):
            for cuts in (2, 3) if big else (2,):
                out.append(dict(name="long/%d/%d/%d" % (n, bs, cuts), fn="h_long", params=dict(n=n, bs=bs, cuts=cuts), cost=200, max_paths=400000))
    for bs in (1, 16, 4096):
        out.append(dict(name="reader/%d" % bs, fn="h_reader", params=dict(bs=bs, cuts=2), cost=200, max_paths=400000))
        out.append(dict(name="write/%d" % bs, fn="h_write", params=dict(bs=bs)))
    return out


def step(S, w, peer, pos, op, data):
    """run one operation and check it; new position"""
    sent, gaps = peer.sent, peer.gaps
    if op == "line":
        r = w.readline()
        n = len(r)
        S.check(S.eq(r, data[pos:pos + n]), "readline returns the next bytes")
        end = None
        for i in range(pos + 1, len(data)):
            if S.fork(S.all(data[i - 1] == 13, data[i] == 10)):
                end = i + 1
                break
        if end is not None and pos + n != end:
            S.check(pos + n < end and peer.gaps > gaps, "a line ends at the first CR LF")
        if end is None or pos + n != end:
            S.check(peer.gaps > gaps and pos + n == peer.sent, "no complete line: the bytes that have arrived")
        return pos + n
    k = op
    r = w.read(k)
    if k == 0:
        S.check(len(r) == 0, "read(0)")
        return pos
    if len(r) == 0:
        S.check(peer.gaps > gaps and peer.sent - pos < k, "nothing only if the bytes have not arrived")
        return pos
    S.check(S.eq(r, data[pos:pos + k]) and len(r) == k, "exactly the next n bytes")
    S.check(S.type(r) is bytes, "bytes")
    return pos + k


def drain(S, w, peer, pos, data):
    while pos < len(data):
        q = step(S, w, peer, pos, 1, data)
        S.check(q > pos or peer.gaps < 8, "bytes that arrive later are delivered")
        pos = q
    S.check(len(w.read(1)) == 0, "nothing that was not sent")
    S.check(len(w.read(3)) == 0, "nothing that was not sent")


def h_ops(S, p):
    W = S.mod("socketwrapper").SocketWrapper
    data = S.bytes("data", p["n"])
    left = [p["gaps"]]
    cnt = [0]

    def cut(m):
        cnt[0] += 1
        return S.length("seg%d" % cnt[0], 1, m)

    def gap(n):
        if not left[0]: return None
        cnt[0] += 1
        g = S.pick("gap%d" % cnt[0], [None, "timeout", "close", "reset", "oserror"] if left[0] == 2 else [None, "timeout", "close"])
        if g: left[0] -= 1
        return g
    peer = Peer(data, cut, gap if p["gaps"] else None)
    w = W(peer, bufsize=p["bs"])
    pos = 0
    for i in range(p["k"]):
        op = S.pick("op%d" % i, p["ops"])
        pos = step(S, w, peer, pos, "line" if op == "line" else int(op[1:]), data)
        S.check(w.in_waiting() == peer.sent - pos, "in_waiting is what has arrived and not been read")
    drain(S, w, peer, pos, data)
    S.check(all(a <= max(p["bs"], 1) for a in peer.asked), "recv asks for no more than the buffer size")
    S.observe(pos)


def h_line(S, p):
    """lines of CR, LF and other characters"""
    W = S.mod("socketwrapper").SocketWrapper
    data = S.bytes("data", p["n"], charset("\r\nx"))
    k = S.length("first", 1, p["n"])
    seg = [k]
    peer = Peer(data, lambda m: min(m, seg.pop() if seg else m))
    w = W(peer, bufsize=p["bs"])
    pos = 0
    for i in range(p["n"]):
        if pos >= len(data): break
        pos = step(S, w, peer, pos, "line", data)
    drain(S, w, peer, pos, data)
    S.observe(pos)


def cutter(S, n, cuts, nm="cut"):
    """recv sizes: any `cuts` cut positions"""
    at, lo = [], 1
    for i in range(cuts):
        if lo >= n: break
        at.append(S.length("%s%d" % (nm, i), lo, n - 1))
        lo = at[-1] + 1
    at.append(n)
    done = [0]

    def cut(m):
        nxt = [x for x in at if x > done[0]][0]
        k = min(m, nxt - done[0])
        done[0] += k
        return k
    return cut


def h_long(S, p):
    W = S.mod("socketwrapper").SocketWrapper
    n = p["n"]
    sym = S.bytes("data", 4)
    fill = bytes((i * 7 + 1) % 256 for i in range(n))
    data = fill[:9] + sym[:2] + fill[11:n - 4] + sym[2:] + fill[n - 2:]
    if n > 50:
        at = S.pick("cut", [(4095, 4096), (4097, 8193), (5000, 8999), (1, 4500)] if n > 5000 else [(1, 2), (15, 16), (16, 17), (28, 30), (32, 255), (255, 256), (150, 298), (299, 300)])
        sizes = [at[0], at[1] - at[0], n - at[1]]
        cut = lambda m: min(m, sizes.pop(0) if len(sizes) else m) or 1
    else:
        cut = cutter(S, n, p["cuts"])
    peer = Peer(data, cut)
    w = W(peer, bufsize=p["bs"])
    pos = 0
    k = S.pick("size", [n - 1, n, 4096, 4097, 8192] if n > 5000 else [n - 1, 13, 17, 29, n])
    while pos + k <= n:
        q = step(S, w, peer, pos, k, data)
        S.check(q == pos + k, "read returns once the bytes have arrived")
        pos = q
    S.check(len(w.read(n - pos + 1)) == 0, "nothing beyond what was sent")
    if n - pos < 400: drain(S, w, peer, pos, data)
    S.observe(pos)


def h_reader(S, p):
    """the NMEA reader over a socket"""
    import socket
    R = S.mod("nmeareader").NMEAReader
    a = ckd(S, "GNTHS,,A").encode("utf-8")
    c = S.bytes("c", 1, FIELD)
    b = ckd(S, "GNZZ1,%s" % c.decode("utf-8")).encode("utf-8")
    data = b"\xb5b" + a + b"$" + b
    peer = Peer(data, cutter(S, len(data), p["cuts"]))

    class Sock(socket.socket):
        def __init__(self): pass
        def recv(self, n, *f): return peer.recv(n, *f)
        def close(self): pass
    s = Sock()
    got = list(R(s, bufsize=p["bs"]))
    S.check(len(got) == 2 and S.all(S.eq(got[0][0], a), S.eq(got[1][0], b)), "both sentences, byte exact")
    S.check(got[1][1] is not None and S.eq(got[1][1].serialize(), b), "parsed")
    S.check(max(peer.asked) <= p["bs"], "buffer size is the one asked for")
    S.observe(got[1][0])


def h_write(S, p):
    W = S.mod("socketwrapper").SocketWrapper
    peer = Peer(b"", lambda m: m)
    w = W(peer, bufsize=p["bs"])
    d = S.bytes("d", S.length("n", 0, 3))
    S.check(w.write(d) == len(d) and len(peer.out) == 1 and S.eq(peer.out[0], d), "write sends the bytes")

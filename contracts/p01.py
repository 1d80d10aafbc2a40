"""P01: messages survive any chunking of the stream."""
from net import *
TRUSTED = ["bytes operations (slicing, find, in, isdigit, decode, ==) on windows of the byte stream, and io.BytesIO as an append-only buffer (pyvc/bytesm.py)",
           "decimal text: str(n) is 1 to 4090 ASCII digits for the lengths that fit in memory, and int() of it is n (pyvc treats the text of a length as opaque digits with a value)"]
ASSUMPTIONS = ["one call is proved for any buffered bytes, any chunk boundaries and any number of chunks; a sequence of messages follows by induction: the buffer after a message is again of the form the contract starts from"]


@contract(M + "decodemsg", name=M + "decodemsg (a message at the start)", variants=["plain", "decoder"])
def _(v, how):
    w = World(v)
    d, n = v.int("d").t, v.int("n").t
    body, end = w.message(w.lo, d, n)
    v.assume(w.b(w.n) >= end)
    v.c.preds.append(lambda a: z3.Or(a <= 0, w.b(a - 1) < end))
    w.start()
    k, r = w.decode() if how == "plain" else decoder(v, w)
    v.oblige("returns", z3.BoolVal(k == "ok"))
    if k != "ok": return
    v.oblige("a payload", z3.BoolVal(isinstance(r, SBytes)))
    if not isinstance(r, SBytes): return
    v.same("exactly the payload", r, SWin(body, end))
    pos = iz(w.src.get("pos")); v.c.index(pos, pos - 1)
    v.same("the rest of the input received stays in the buffer", w.contents() if how == "plain" else v.method(w.dec, "get_buffered_data"), SWin(end, w.b(pos)))
    v.oblige("no more is read than the chunk that completes the message", z3.Or(pos == 0, w.b(pos - 1) < end))


def decoder(v, w):
    w.dec = v.total("make a decoder", lambda: v.call(M + "MessageDecoder", w.src))
    return v.attempt(lambda: (v.p.setattr(w.dec, "buffer", w.buf), v.method(w.dec, "decode"))[1])


@contract(M + "decodemsg", name=M + "decodemsg (the end of the input)", variants=["between messages", "inside a message"])
def _(v, how):
    """no complete message any more: the end-of-stream result"""
    w = World(v)
    if how == "between messages": v.assume(w.b(w.n) == w.lo)
    else:
        d, n = v.int("d").t, v.int("n").t
        body, end = w.message(w.lo, d, n)
        v.assume(w.b(w.n) < end); v.assume(w.b(w.n) > w.lo)
    v.c.recdef(lambda i: z3.Implies(z3.And(i >= 0, i <= w.n), w.b(i) <= w.b(w.n)))    # (by induction)
    w.start()
    k, r = w.decode()
    v.oblige("returns", z3.BoolVal(k == "ok"))
    v.oblige("nothing", z3.BoolVal(k == "ok" and r is None))


@contract(M + "encodemsg")
def _(v):
    a, n = v.int("a").t, v.int("n", 0).t
    data = window(v.c, a, a + n)
    r = v.total("call", lambda: v.call(M + "encodemsg", data))
    v.same("sync, version, length field, payload", r, SRope([b"\xffv01l", Dec(n), b";", data]))


@contract(M + "encodemsg", name=M + "encodemsg, ReceiveBuffer, bytessource (not bytes)")
def _(v):
    x = [v.int("x"), "text", None, v.source("s", "list").value][v.choose(4)]
    f = v.choose(4)
    v.must_raise("refused", TypeError, lambda: v.call(M + "encodemsg", x) if f == 0 else v.call(N + "bytessource", x) if f == 1 else v.method(v.call(N + "ReceiveBuffer"), "append", x) if f == 2 else v.method(v.call(N + "ReceiveBuffer"), "set", x))


@contract(N + "ReceiveBuffer")
def _(v):
    """append adds at the end, set replaces, getvalue shows; each returns the buffer"""
    a, n, m, k = v.int("a").t, v.int("n", 0).t, v.int("m", 0).t, v.int("k").t
    x, y, z = window(v.c, a, a + n), window(v.c, a + n, a + n + m), window(v.c, k, k + m)
    b = v.call(N + "ReceiveBuffer", x) if v.choose(2) else v.method(v.call(N + "ReceiveBuffer"), "append", x)
    v.same("initial contents", v.method(b, "getvalue"), x)
    if v.choose(2):
        r = v.method(b, "append", y); v.same("appended", v.method(b, "getvalue"), SWin(a, a + n + m))
    else:
        r = v.method(b, "set", z); v.same("replaced", v.method(b, "getvalue"), z)
    v.oblige("returns the buffer", z3.BoolVal(r is b))
    v.same("two buffers are separate", v.method(v.call(N + "ReceiveBuffer"), "getvalue"), b"")


@contract(N + "bytessource", variants=[1, 2, 3, 7, "default"])
def _(v, cs):
    """the chunks are the data, in order, in pieces of the chunk size, the last one shorter"""
    a, n = v.int("a").t, v.int("n", 0).t
    s = 4096 if cs == "default" else cs
    data = window(v.c, a, a + n)
    it = v.total("call", lambda: v.call(N + "bytessource", data) if cs == "default" else v.call(N + "bytessource", data, chunksize=cs) if v.choose(2) else v.call(N + "bytessource", data, cs))
    cnt = z3.Int("count"); v.assume(z3.And(cnt >= 0, cnt * s >= n, (cnt - 1) * s < n))
    v.bound(cnt)
    v.stream("chunks", it, SSeq(cnt, lambda k: SWin(a + k * s, a + z3.If((k + 1) * s < n, (k + 1) * s, n))))


class Device(md.SimpleObj):
    """a stream or socket that delivers [at, end) in pieces of at most the size asked for, then b''"""
    nat = object
    def __init__(self, at, end, need): super().__init__(at=mki(at)); self.end, self.need = end, need
    def m_recv(self, p, n): return self.m_read(p, n)
    def m_read(self, p, n=-1):
        at = iz(self.get("at"))
        self.need(p, n)
        if not p.c.branch(at < self.end): return b""
        k = p.c.int("got"); p.c.assume(z3.And(k >= 1, k <= iz(n), at + k <= self.end))
        self.set("at", mki(at + k))
        return window(p.c, at, at + k)


@contract(N + "streamsource", variants=["5", "default"])
def _(v, cs):
    a, n = v.int("a").t, v.int("n", 0).t
    v.bound(a + n)
    dev = Device(a, a + n, lambda p, k: v.oblige("asks for the chunk size", iz(k) == (4096 if cs == "default" else 5)))
    dev.pytypes = (md.IOBaseStub,)
    it = v.total("call", lambda: v.call(N + "streamsource", dev) if cs == "default" else v.call(N + "streamsource", dev, 5))
    at = HObj(at=mki(a))
    i = py_iter(v.p, it)
    def body(x):
        v.same("chunks in order, nothing lost", x, SWin(iz(at.get("at")), iz(dev.get("at")))); v.oblige("no empty chunk", bm.blen(x) > 0)
        at.set("at", dev.get("at")); return None
        yield
    v.p.run_plain(v.p.drive(i, body, StreamNode, None))
    v.oblige("ends at the end of the data", iz(at.get("at")) == a + n)


@contract(N + "recvall")
def _(v):
    a, n, m = v.int("a").t, v.int("n", 0).t, v.int("m", 0).t
    v.bound(a + n); v.bound(a + m)
    dev = Device(a, a + m, lambda p, k: v.oblige("never asks for more than is missing", z3.And(iz(k) >= 1, iz(dev.get("at")) + iz(k) <= a + n)))
    r = v.total("call", lambda: v.call(N + "recvall", mki(n), dev))
    if v.case(m >= n): v.same("exactly n bytes", r, SWin(a, a + n)); v.oblige("no more taken", iz(dev.get("at")) == a + n)
    else: v.oblige("None when the connection ends early", z3.BoolVal(r is None))


@contract(N + "netstringify")
def _(v):
    a, n = v.int("a").t, v.int("n", 0).t
    data = window(v.c, a, a + n)
    r = v.total("call", lambda: v.call(N + "netstringify", data))
    v.same("length, colon, data, comma", r, SRope([Dec(n), b":", data, b","]))

"""Shared by P01 and P02: byte streams cut into chunks, messages in them, and the decoder run on them."""
from spec import *
from lib import *
from bytesm import *
M, N = "unpythonic.net.msg:", "unpythonic.net.util:"
SYNC, VER, LEN, END = 0xff, b"v01", ord("l"), ord(";")


class Chunks(Stream):
    """an iterator over the chunks [b(i), b(i+1)) of the stream, i < n (n None: more always comes)"""
    def __init__(self, b, n): super().__init__(pos=0); self.b, self.n = b, n
    def nxt(self, p):
        i = iz(self.get("pos")); p.c.index(i)
        if self.n is not None and not p.c.branch(i < self.n): raise Stop
        self.set("pos", mki(i + 1)); p.c.index(i + 1)
        return window(p.c, self.b(i), self.b(i + 1))


def header(q): return z3.And([byte(q) == SYNC] + [byte(q + 1 + k) == x for k, x in enumerate(VER)] + [byte(q + 4) == LEN])


class World:
    """a buffer holding [lo, b(0)) and chunks to come"""
    def __init__(self, v, finite=True):
        c = self.c = v.c; self.v = v; c.lean = True
        self.b = z3.Function("chunk_end", I, I)
        self.n = z3.Int("chunks") if finite else None
        self.lo = z3.Int("lo")
        if finite: v.assume(self.n >= 0); v.bound(self.n); c.index(self.n)
        v.assume(self.lo <= self.b(0)); c.index(z3.IntVal(0))
        v.bound(self.lo); c.index(self.lo)
        c.recdef(lambda i: z3.Implies(i >= 0, self.b(i) <= self.b(i + 1)))
        c.pairs.append(lambda h, i: h == self.b(i))
        self.buf = v.total("make a buffer", lambda: v.call(N + "ReceiveBuffer"))
        self.src = Chunks(self.b, self.n)
    def start(self, fresh=True):
        v = self.v
        how = v.choose(2) if fresh else 0
        if how == 0:
            v.total("fill the buffer", lambda: v.method(self.buf, "set", window(self.c, self.lo, self.b(0))))
        else:
            v.assume(self.lo == self.b(0))          # nothing received so far
    def decode(self): return self.v.attempt(lambda: self.v.call(M + "decodemsg", self.buf, self.src))
    def contents(self): return self.v.method(self.buf, "getvalue")
    def message(self, q, d, n):
        """a well-formed message at q: a length field of d digits, n bytes of payload"""
        v, c = self.v, self.c
        v.assume(z3.And(header(q), d >= 1, d <= 4090, n >= 0, byte(q + 5 + d) == END))
        c.index(q, q + 5, q + 5 + d)
        v.assume(dig_term(c, q + 5, q + 5 + d)); v.assume(DEC(q + 5, q + 5 + d) == n)
        end = z3.simplify(q + 6 + d + n)
        for t in (q, q + 5 + d, end): v.bound(t)
        return z3.simplify(q + 6 + d), end

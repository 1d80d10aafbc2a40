"""P02: the decoder resynchronises on junk and never crashes."""
from net import *
TRUSTED = ["bytes operations (slicing, find, in, isdigit, decode, ==) on windows of the byte stream, and io.BytesIO as an append-only buffer (pyvc/bytesm.py)",
           "int() of up to 4300 ASCII digits does not fail"]
LIMIT = 300
ASSUMPTIONS = ["termination is argued by the bounded executable contracts: each failed header removes a byte from the buffer, each read takes a chunk of a finite input"]


def wellformed(q, j):
    """the decoder's header grammar: a length field [q + 5, j) of digits, closed within the first 4096 bytes"""
    return z3.And(header(q), q + 5 < j, j < q + 4096, byte(j) == END, DIG(q + 5, j))


@contract(M + "decodemsg", name=M + "decodemsg (any bytes whatsoever)")
def _(v):
    """never raises; what it returns is the payload announced by a well-formed header, or None"""
    w = World(v)
    w.start(False)
    digs = []
    v.c.on_digits = lambda lo, hi: digs.append((lo, hi))
    k, r = w.decode()
    v.oblige("no exception", z3.BoolVal(k == "ok"))
    if k != "ok" or r is None: return
    v.oblige("a payload", z3.BoolVal(isinstance(r, SWin)))
    if not isinstance(r, SWin): return
    v.oblige("of a well-formed message", z3.Or([z3.And(wellformed(lo - 5, hi), r.lo == hi + 1, r.hi - r.lo == DEC(lo, hi)) for lo, hi in digs] + [z3.BoolVal(False)]))
    pos = iz(w.src.get("pos")); v.c.index(pos)
    v.same("what follows it stays in the buffer", w.contents(), SWin(r.hi, w.b(pos)))


@contract(M + "decodemsg", name=M + "decodemsg (a message after junk)", variants=["no sync byte", "malformed headers"])
def _(v, how):
    """any bytes that contain no well-formed header, then a message"""
    w = World(v)
    c = v.c
    q, d, n = v.int("q").t, v.int("d").t, v.int("n").t
    body, end = w.message(q, d, n)
    v.assume(z3.And(w.lo <= q, w.b(w.n) >= end))
    if how == "no sync byte": c.recdef(lambda k: z3.Implies(z3.And(w.lo <= k, k < q), byte(k) != SYNC), exact=True)
    else: c.on_digits = lambda lo, hi: v.assume(z3.Implies(z3.And(w.lo <= lo - 5, lo - 5 < q), z3.Not(wellformed(lo - 5, hi))))
    c.preds.append(lambda a: z3.Or(a <= 0, w.b(a - 1) < end))
    w.start(how == "no sync byte")
    k, r = w.decode()
    v.oblige("no exception", z3.BoolVal(k == "ok"))
    v.oblige("a payload", z3.BoolVal(isinstance(r, SWin)))
    if not isinstance(r, SWin): return
    v.same("the message after the junk, intact", r, SWin(body, end))
    pos = iz(w.src.get("pos")); c.index(pos, pos - 1)
    v.same("what follows it stays in the buffer", w.contents(), SWin(end, w.b(pos)))
    v.oblige("no more is read than the chunk that completes the message", z3.Or(pos == 0, w.b(pos - 1) < end))


@contract(M + "decodemsg", name=M + "decodemsg (only junk)", variants=["no sync byte", "malformed headers"])
def _(v, how):
    """no well-formed header in the whole input: the end-of-stream result"""
    w = World(v)
    c = v.c
    if how == "no sync byte": c.recdef(lambda k: z3.Implies(z3.And(w.lo <= k, k < w.b(w.n)), byte(k) != SYNC), exact=True)
    else: c.on_digits = lambda lo, hi: v.assume(z3.Implies(z3.And(w.lo <= lo - 5, hi < w.b(w.n)), z3.Not(wellformed(lo - 5, hi))))
    c.recdef(lambda i: z3.Implies(z3.And(i >= 0, i <= w.n), w.b(i) <= w.b(w.n)))    # (by induction)
    w.start(how == "no sync byte")
    k, r = w.decode()
    v.oblige("no exception", z3.BoolVal(k == "ok"))
    v.oblige("nothing", z3.BoolVal(k == "ok" and r is None))

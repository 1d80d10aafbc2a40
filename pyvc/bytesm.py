"""Byte strings of symbolic content: windows [lo, hi) of one uninterpreted byte sequence, and ropes of such pieces.

byte(k) is the byte at position k.  find/in are described by the function FIND (first position of a byte in a
window, or -1), isdigit by DIG, int() of a digit string by DEC."""
import io
import z3
from core import *
from ops import *

byte = z3.Function("byte", I, I)
DIG = z3.Function("digits", I, I, B)
DEC = z3.Function("decimal_value", I, I, I)
FIND = {}


class SBytes:
    __slots__ = ()
    is_sbytes = True


class SWin(SBytes):
    __slots__ = ("lo", "hi")
    def __init__(self, lo, hi): self.lo, self.hi = z3.simplify(lo), z3.simplify(hi)
    def __repr__(self): return f"bytes[{self.lo}:{self.hi}]"


class Dec:
    """decimal text of an integer"""
    def __init__(self, t): self.t = t
    def __repr__(self): return f"str({self.t})"


class SRope(SBytes):
    def __init__(self, parts): self.parts = parts
    def __repr__(self): return f"rope{self.parts}"


class SText:
    """ASCII text of a byte string"""
    def __init__(self, b): self.b = b
    def __repr__(self): return f"text({self.b})"


def window(c, lo, hi):
    c.index(lo, hi)
    return SWin(lo, hi)


def find_term(c, ch, lo, end):
    """position of the first ch in [lo, end), or -1"""
    lo, end = z3.simplify(lo), z3.simplify(end)
    f = FIND.setdefault(ch, z3.Function(f"find_{ch}", I, I, I))
    t = f(lo, end)
    seen = c.__dict__.setdefault("find_seen", set())
    key = (ch, lo.get_id(), end.get_id())
    if key not in seen:
        seen.add(key); c.__dict__.setdefault("find_keep", []).append((lo, end))
        c.solver.add(z3.Or(t == -1, z3.And(lo <= t, t < end, byte(t) == ch))); c.pc.append(z3.Or(t == -1, z3.And(lo <= t, t < end, byte(t) == ch)))
        c.recdef(lambda k: z3.Implies(z3.And(lo <= k, k < z3.If(t == -1, end, t)), byte(k) != ch), exact=True)
        c.index(t)
    return t


def dig_term(c, lo, hi):
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    t = DIG(lo, hi)
    seen = c.__dict__.setdefault("dig_seen", set())
    key = (lo.get_id(), hi.get_id())
    if key not in seen:
        seen.add(key); c.__dict__.setdefault("dig_keep", []).append((lo, hi))
        isd = lambda k: z3.And(byte(k) >= 48, byte(k) <= 57)
        w = c.int("nondigit")
        ax = z3.If(t, lo < hi, z3.Or(lo >= hi, z3.And(lo <= w, w < hi, z3.Not(isd(w)))))
        c.solver.add(ax); c.pc.append(ax)
        c.recdef(lambda k: z3.Implies(z3.And(t, lo <= k, k < hi), isd(k)), exact=True)
        c.index(w)
        if getattr(c, "on_digits", None): c.on_digits(lo, hi)
    return t


def parts(x):
    if isinstance(x, SRope): return list(x.parts)
    return [x]


def cat(c, a, b):
    out = []
    for x in parts(a) + parts(b):
        if isinstance(x, bytes) and not x: continue
        if out and isinstance(out[-1], bytes) and isinstance(x, bytes): out[-1] += x; continue
        if out and isinstance(out[-1], SWin) and isinstance(x, SWin):
            y = out[-1]
            if c.valid(y.hi == x.lo)[0] == "yes": out[-1] = SWin(y.lo, x.hi); continue
            if c.valid(y.lo == y.hi)[0] == "yes": out[-1] = x; continue
            if c.valid(x.lo == x.hi)[0] == "yes": continue
        out.append(x)
    return b"" if not out else out[0] if len(out) == 1 and not isinstance(out[0], Dec) else SRope(out)


def blen(x):
    if isinstance(x, bytes): return z3.IntVal(len(x))
    if isinstance(x, SWin): return z3.simplify(x.hi - x.lo)
    raise Unsupported("length of composed bytes")


def same_bytes(a, b):
    """same piece of the input (or both empty), or equal constants"""
    pa, pb = parts(a), parts(b)
    if len(pa) == 1 and len(pb) == 1:
        a, b = pa[0], pb[0]
        if isinstance(a, SWin) and isinstance(b, SWin): return z3.Or(z3.And(a.lo == b.lo, a.hi == b.hi), z3.And(a.lo == a.hi, b.lo == b.hi))
        if isinstance(a, SWin) or isinstance(b, SWin):
            if isinstance(b, SWin): a, b = b, a
            if not isinstance(b, bytes): raise Unsupported("comparison of composed bytes")
            return z3.And([a.hi - a.lo == len(b)] + [byte(a.lo + k) == x for k, x in enumerate(b)])
    if len(pa) == len(pb):
        out = []
        for x, y in zip(pa, pb):
            if isinstance(x, Dec) and isinstance(y, Dec): out.append(x.t == y.t)
            elif isinstance(x, bytes) and isinstance(y, bytes): out.append(z3.BoolVal(x == y))
            elif isinstance(x, SWin) and isinstance(y, SWin): out.append(same_bytes(x, y))
            else: raise Unsupported("comparison of composed bytes")
        return z3.And(out)
    raise Unsupported("comparison of composed bytes")


def clampz(a, n):
    a = iz(a)
    return z3.simplify(z3.If(a < 0, z3.If(a + n < 0, 0, a + n), z3.If(a > n, n, a)))


def b_slice(p, o, k):
    if k.step not in (None, 1): raise Unsupported("slicing bytes with a step")
    if not isinstance(o, SWin): raise Unsupported("slicing composed bytes")
    n = o.hi - o.lo
    a = z3.IntVal(0) if k.start is None else clampz(k.start, n)
    b = n if k.stop is None else clampz(k.stop, n)
    return window(p.c, o.lo + a, o.lo + z3.If(b < a, a, b))


def b_find(p, o, sub, start=None, end=None):
    if isinstance(sub, bytes) and len(sub) == 1: sub = sub[0]
    if not isinstance(sub, int) or not isinstance(o, SWin): raise Unsupported("bytes.find")
    n = o.hi - o.lo
    a = z3.IntVal(0) if start is None else clampz(start, n)
    b = n if end is None else clampz(end, n)
    calls = p.c.__dict__.setdefault("find_calls", [])
    for key in ((sub, start if isinstance(start, int) else 0, end if isinstance(end, int) else None),):
        if key not in calls: calls.append(key)
    t = find_term(p.c, sub, o.lo + a, o.lo + b)
    return mki(z3.If(t == -1, -1, t - o.lo))


def b_method(p, o, k, Builtin, throw):
    c = p.c
    def m(f): return Builtin("bytes." + k, lambda p_, a, kw: f(*a, **kw))
    if k == "find": return m(lambda *a: b_find(p, o, *a))
    if k == "index":
        def f(*a):
            r = b_find(p, o, *a)
            if not c.branch(iz(r) != -1): throw(ValueError, "subsection not found")
            return r
        return m(f)
    if k == "isdigit":
        if not isinstance(o, SWin): raise Unsupported("isdigit of composed bytes")
        return m(lambda: mkb(dig_term(c, o.lo, o.hi)))
    if k == "startswith":
        def f(x):
            if not isinstance(x, bytes) or not isinstance(o, SWin): raise Unsupported("startswith")
            return mkb(z3.And([o.hi - o.lo >= len(x)] + [byte(o.lo + j) == b for j, b in enumerate(x)]))
        return m(f)
    if k == "decode": return m(lambda *a, **kw: SText(o))
    if hasattr(bytes, k): raise Unsupported(f"bytes.{k} of symbolic bytes")
    throw(AttributeError, k)


def to_int(p, o, throw):
    if not isinstance(o, SWin): raise Unsupported("int() of composed text")
    c = p.c
    if not c.branch(dig_term(c, o.lo, o.hi)): raise Unsupported("int() of text that need not be digits")
    if not c.branch(o.hi - o.lo <= 4300): throw(ValueError, "Exceeds the limit (4300 digits) for integer string conversion")
    t = DEC(o.lo, o.hi)
    c.assume(t >= 0)
    return mki(t)

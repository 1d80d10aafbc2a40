"""Operations on symbolic values and sequences."""
import z3
from core import *

int2u = z3.Function("int2u", I, U)
u2int = z3.Function("u2int", U, I)
tag = z3.Function("tag", U, I)
eqf = z3.Function("py_eq", U, U, B)
ltf = z3.Function("py_lt", U, U, B)
lef = z3.Function("py_le", U, U, B)
truthy = z3.Function("py_truth", U, B)
_tupf = {}
_consts = {}
_cfun = z3.Function("const", I, U)


def tupf(n):
    if n not in _tupf:
        _tupf[n] = (z3.Function(f"tuple{n}", *([U] * n), U), [z3.Function(f"proj{n}_{j}", U, U) for j in range(n)])
    return _tupf[n]


class STuple:
    """Immutable tuple (or str-like) of symbolic length."""
    __slots__ = ("seq",)
    def __init__(self, seq): self.seq = seq
    def __repr__(self): return f"STuple({self.seq})"


_inverses = {}
_prims = (type(None), bool, str, bytes, float, type)


def constid(v):
    key = (type(v), v)
    if key not in _consts: _consts[key] = len(_consts)
    return _consts[key]


def toU(v):
    """Encode any value as a term of sort U (injective by instantiated axioms)."""
    c = Ctx.cur
    if isinstance(v, SU): return v.t
    def ax(t, *fs):
        k = ("ax", t.sexpr())
        if k not in c.unfolded:
            c.unfolded[k] = None
            for f in fs: c.solver.add(f)
        return t
    if isinstance(v, (bool, SBool)):
        t = z3.If(bz(v), _cfun(constid(True)), _cfun(constid(False)))
        return ax(z3.simplify(t), tag(_cfun(constid(True))) == 2, tag(_cfun(constid(False))) == 2, u2int(_cfun(constid(True))) == constid(True), u2int(_cfun(constid(False))) == constid(False))
    if isinstance(v, (int, SInt)):
        t = int2u(iz(v))
        return ax(t, u2int(t) == iz(v), tag(t) == 1)
    if isinstance(v, tuple):
        f, ps = tupf(len(v))
        if not v:
            return ax(_cfun(constid("()")), tag(_cfun(constid("()"))) == 3, u2int(_cfun(constid("()"))) == -1)
        xs = [toU(x) for x in v]
        t = f(*xs)
        return ax(t, tag(t) == 100 + len(v), *[p(t) == x for p, x in zip(ps, xs)])
    if isinstance(v, HObj):
        t = z3.Const(f"obj{v.uid}", U)
        return ax(t, tag(t) == 4, u2int(t) == v.uid)
    if isinstance(v, _prims) or callable(v) or True and not isinstance(v, (Seq, STuple, Opaque)):
        try:
            k = constid(v)
        except TypeError:
            raise Unsupported(f"cannot encode {v!r}")
        t = _cfun(k)
        return ax(t, tag(t) == 2, u2int(t) == k)
    raise Unsupported(f"cannot encode {v!r} as an object")


u_none = lambda: toU(None)


def same(a, b):
    """identity (for ints, tuples: equality of value) -> z3 Bool"""
    if a is b: return z3.BoolVal(True)
    if isinstance(a, SU) or isinstance(b, SU):
        return toU(a) == toU(b)
    if isint(a) and isint(b): return iz(a) == iz(b)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return bz(a) == bz(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return z3.BoolVal(False)
        return z3.And([same(x, y) for x, y in zip(a, b)]) if a else z3.BoolVal(True)
    if isinstance(a, (STuple, tuple)) and isinstance(b, (STuple, tuple)):
        return same_seq(tseq(a), tseq(b))
    if isinstance(a, SArr) and isinstance(b, SArr): return a.t == b.t
    if hasattr(a, "is_sbytes") or hasattr(b, "is_sbytes"):
        import bytesm
        if isinstance(a, (bytes, bytesm.SBytes)) and isinstance(b, (bytes, bytesm.SBytes)): return bytesm.same_bytes(a, b)
        return z3.BoolVal(False)
    if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported("comparison of an opaque value")
    if isinstance(a, (HObj, tuple, SInt, SBool, STuple)) or isinstance(b, (HObj, tuple, SInt, SBool, STuple)): return z3.BoolVal(False)
    try:
        return z3.BoolVal(type(a) is type(b) and bool(a == b))
    except Exception:
        return z3.BoolVal(False)


def same_seq(a, b):
    """equality of two sequences as a goal: lengths equal and elements equal at a skolem index
    (sound for obligations only: the index is arbitrary)."""
    if isinstance(a, CSeq) and isinstance(b, CSeq):
        if len(a.items) != len(b.items): return z3.BoolVal(False)
        return z3.And([same(x, y) for x, y in zip(a.items, b.items)] or [z3.BoolVal(True)])
    if getattr(a, "inf", False) or getattr(b, "inf", False):
        if not (getattr(a, "inf", False) and getattr(b, "inf", False)): return z3.BoolVal(False)
        i = Ctx.cur.int("sk"); Ctx.cur.index(i)
        return z3.Implies(i >= 0, same(sat(a, i), sat(b, i)))
    la, lb = iz(slen(a)), iz(slen(b))
    if isinstance(a, CSeq) or isinstance(b, CSeq):
        k = len((a if isinstance(a, CSeq) else b).items)
        if k <= 12:
            # elements under the guard that the lengths agree
            fs = [la == lb]
            for j in range(k):
                fs.append(z3.Implies(la == lb, same(sat(a, j), sat(b, j))))
            return z3.And(fs)
    i = Ctx.cur.int("sk")
    Ctx.cur.index(i)
    return z3.And(la == lb, z3.Implies(z3.And(i >= 0, i < la), same(sat(a, i), sat(b, i))))


def ite(c, a, b):
    """value-level if-then-else; branches the path when the values cannot be merged"""
    if isinstance(c, SBool): c = c.t
    if isinstance(c, bool): return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if isinstance(a, HObj) or isinstance(b, HObj):
        cx = Ctx.cur
        if cx.check(z3.Not(c)) == z3.unsat: return a
        if cx.check(c) == z3.unsat: return b
    if isint(a) and isint(b): return mki(z3.If(c, iz(a), iz(b)))
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return mkb(z3.If(c, bz(a), bz(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SU) or isinstance(b, SU) or (not isinstance(a, (HObj, Seq, STuple, tuple)) and not isinstance(b, (HObj, Seq, STuple, tuple)) and not callable(a) and not callable(b)):
        try:
            return SU(z3.If(c, toU(a), toU(b)))
        except Unsupported:
            pass
    return a if Ctx.cur.branch(c) else b


# ------------------------------------------------------------ sequences
def slen(s):
    if isinstance(s, CSeq): return len(s.items)
    if s.inf: raise Unsupported("length of an infinite sequence")
    return mki(s.n)


def sat(s, i):
    if isinstance(i, SInt): i = i.t
    if z3.is_expr(i):
        i = z3.simplify(i)
        if z3.is_int_value(i): i = i.as_long()
    if isinstance(s, CSeq):
        if isinstance(i, int):
            if 0 <= i < len(s.items): return s.items[i]
            return SU(z3.Const("out_of_range", U)) if not s.items else s.items[-1]
        if not s.items: return SU(z3.Const("out_of_range", U))
        r = s.items[-1]
        for k in range(len(s.items) - 2, -1, -1):
            r = ite(i == k, s.items[k], r)
        return r
    return s.f(i if z3.is_expr(i) else z3.IntVal(i))


def sconcat(a, b):
    if isinstance(a, CSeq) and isinstance(b, CSeq): return CSeq(a.items + b.items)
    if isinstance(a, CSeq) and not a.items: return b
    if isinstance(b, CSeq) and not b.items: return a
    if getattr(a, "inf", False): return a
    n = iz(slen(a))
    if getattr(b, "inf", False):
        return SSeq(None, lambda i: ite(i < n, sat(a, i), sat(b, i - n)), inf=True)
    return SSeq(n + iz(slen(b)), lambda i: ite(i < n, sat(a, i), sat(b, i - n)))


def conc(v):
    if isinstance(v, SInt):
        t = z3.simplify(v.t)
        return t.as_long() if z3.is_int_value(t) else None
    if isinstance(v, int): return int(v)
    if z3.is_expr(v):
        t = z3.simplify(v)
        return t.as_long() if z3.is_int_value(t) else None
    return None


def sslice(s, lo, hi):
    """elements lo..hi-1; requires 0 <= lo <= hi <= len"""
    cl, ch = conc(lo), conc(hi) if hi is not None else None
    if isinstance(s, CSeq):
        if hi is None: ch = len(s.items)
        if cl is not None and ch is not None: return CSeq(s.items[cl:ch])
    if getattr(s, "inf", False) and hi is None:
        l = iz(lo)
        return SSeq(None, lambda i: sat(s, z3.simplify(i + l)), inf=True)
    l = iz(lo)
    h = iz(slen(s)) if hi is None else iz(hi)
    if cl == 0 and hi is None: return s
    n = z3.simplify(h - l)
    if z3.is_int_value(n) and n.as_long() <= 16:
        return CSeq([sat(s, z3.simplify(l + k)) for k in range(max(0, n.as_long()))])
    return SSeq(n, lambda i: sat(s, z3.simplify(i + l)))


def srev(s):
    if isinstance(s, CSeq): return CSeq(s.items[::-1])
    n = s.n
    return SSeq(n, lambda i: sat(s, z3.simplify(n - 1 - i)))


def smap(s, f):
    if isinstance(s, CSeq): return CSeq([f(x) for x in s.items])
    return SSeq(s.n, lambda i: f(s.f(i)), inf=s.inf)


def zmin(a, b):
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None: return z3.IntVal(min(ca, cb))
    return z3.If(iz(a) <= iz(b), iz(a), iz(b))


def zmax(a, b):
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None: return z3.IntVal(max(ca, cb))
    return z3.If(iz(a) >= iz(b), iz(a), iz(b))


def tseq(v):
    """sequence of a tuple-like value"""
    if isinstance(v, tuple): return CSeq(v)
    if isinstance(v, STuple): return v.seq
    if isinstance(v, (str, bytes)): return CSeq(list(v))
    raise Unsupported(f"not a tuple: {v!r}")


def mktuple(s):
    return tuple(s.items) if isinstance(s, CSeq) else STuple(s)


def subst_value(v, frm, to):
    if isinstance(v, (SInt, SBool, SU)):
        t = z3.substitute(v.t, (frm, to))
        return mki(t) if isinstance(v, SInt) else mkb(t) if isinstance(v, SBool) else SU(t)
    if isinstance(v, tuple): return tuple(subst_value(x, frm, to) for x in v)
    if isinstance(v, Seq) or isinstance(v, STuple): raise Impure
    return v

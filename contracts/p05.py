"""P05: iterator selection functions return exactly the items they name."""
from spec import *
from lib import *
it = "unpythonic.it:"
KINDS = ("iterator", "list", "iterable")
ALL = KINDS + ("infinite",)
TRUSTED = ["itertools.islice, tee, chain, collections.deque: modelled from their documentation (pyvc/models.py)"]
ASSUMPTIONS = ["inputs behave as sequences: an item, once produced by the input, is not changed by other code meanwhile"]


def mn(s, n): return n if s.inf else zmin(SInt(n) if z3.is_expr(n) else n, SInt(s.n))


@contract(it + "take", variants=ALL)
def _(v, kind):
    n, s = v.int("n", 0), v.source("s", kind)
    r = v.total("call", lambda: v.call(it + "take", n, s.value))
    v.stream("take", r, SSeq(mn(s, n.t), s.at))


@contract(it + "drop", variants=ALL)
def _(v, kind):
    n, s = v.int("n", 0), v.source("s", kind)
    r = v.total("call", lambda: v.call(it + "drop", n, s.value))
    if s.inf: v.stream("drop", r, SSeq(None, lambda i: s.at(n.t + i), inf=True))
    else: v.stream("drop", r, SSeq(zmax(SInt(s.n - n.t), 0), lambda i: s.at(n.t + i)))


@contract(it + "drop", name=it + "drop(None)", variants=KINDS)
def _(v, kind):
    s = v.source("s", kind)
    r = v.total("call", lambda: v.call(it + "drop", None, s.value))
    v.stream("drop(None) is empty", r, CSeq(()))


@contract(it + "tail", variants=ALL)
def _(v, kind):
    s = v.source("s", kind)
    r = v.total("call", lambda: v.call(it + "tail", s.value))
    if s.inf: v.stream("tail", r, SSeq(None, lambda i: s.at(i + 1), inf=True))
    else: v.stream("tail", r, SSeq(zmax(SInt(s.n - 1), 0), lambda i: s.at(i + 1)))


@contract(it + "split_at", variants=[(k, o) for k in ALL for o in "ab"])
def _(v, var):
    kind, order = var
    n, s = v.int("n", 0), v.source("s", kind)
    r = v.total("call", lambda: v.call(it + "split_at", n, s.value))
    a, b = v.items(r).items
    first = SSeq(mn(s, n.t), s.at)
    rest = SSeq(None, lambda i: s.at(n.t + i), inf=True) if s.inf else SSeq(zmax(SInt(s.n - n.t), 0), lambda i: s.at(n.t + i))
    # in either order of reading
    if order == "a": v.stream("first part", a, first)
    v.stream("second part", b, rest)
    if order == "b" and not s.inf: v.stream("first part after the second", a, first)


def bad_counts(fname, call):
    @contract(it + fname, name=it + fname + " (invalid counts)")
    def _(v):
        s = v.source("s", "list")
        n = v.int("n", hi=-1)
        v.must_raise("negative count", ValueError, lambda: call(v, n, s.value))
        v.must_raise("not a count", TypeError, lambda: call(v, "x", s.value))
    return _


for f in ("take", "drop", "split_at", "nth"):
    bad_counts(f, lambda v, n, s, f=f: v.call(it + f, n, s))
bad_counts("unpack", lambda v, n, s: v.call(it + "unpack", n, s))


@contract(it + "nth", variants=KINDS)
def _(v, kind):
    n, s, d = v.int("n", 0), v.source("s", kind), v.obj("default")
    r = v.total("call", lambda: v.call(it + "nth", n, s.value, default=d))
    v.same("nth item, else the default", r, s.at(n.t) if v.case(n.t < s.n) else d)


@contract(it + "nth", name=it + "nth (infinite input)")
def _(v):
    n, s = v.int("n", 0), v.source("s", "infinite")
    v.same("nth item", v.total("call", lambda: v.call(it + "nth", n, s.value)), s.at(n.t))


for f, j in (("first", 0), ("second", 1)):
    @contract(it + f, variants=KINDS)
    def _(v, kind, f=f, j=j):
        s, d = v.source("s", kind), v.obj("default")
        r = v.total("call", lambda: v.call(it + f, s.value, default=d))
        v.same(f"item {j}, else the default", r, s.at(j) if v.case(s.n > j) else d)


@contract(it + "last", variants=KINDS)
def _(v, kind):
    s, d = v.source("s", kind), v.obj("default")
    r = v.total("call", lambda: v.call(it + "last", s.value, default=d))
    v.same("last item, else the default", r, s.at(s.n - 1) if v.case(s.n > 0) else d)


@contract(it + "lastn", variants=KINDS)
def _(v, kind):
    n, s = v.int("n", 0), v.source("s", kind)
    r = v.total("call", lambda: v.call(it + "lastn", n, s.value))
    m = zmin(n, SInt(s.n))
    v.stream("lastn", r, SSeq(m, lambda i: s.at(s.n - m + i)))


@contract(it + "butlastn", variants=KINDS)
def _(v, kind):
    n, s = v.int("n", 0), v.source("s", kind)
    r = v.total("call", lambda: v.call(it + "butlastn", n, s.value))
    v.stream("butlastn", r, SSeq(zmax(SInt(s.n - n.t), 0), s.at))


@contract(it + "butlastn", name=it + "butlastn (infinite input)")
def _(v):
    n, s = v.int("n", 0), v.source("s", "infinite")
    v.stream("butlastn", v.total("call", lambda: v.call(it + "butlastn", n, s.value)), s.seq)


@contract(it + "butlast", variants=KINDS)
def _(v, kind):
    s = v.source("s", kind)
    r = v.total("call", lambda: v.call(it + "butlast", s.value))
    v.stream("butlast", r, SSeq(zmax(SInt(s.n - 1), 0), s.at))


def check_unpack(v, r, s, n, k, fill):
    """n a z3 Int; r the returned tuple (items..., tail)"""
    q = tseq(r)
    v.oblige("n items and a tail", iz(slen(q)) == n + 1)
    i = v.c.int("i"); v.c.index(i)
    v.assume(z3.And(0 <= i, i < n))
    if s.inf or v.case(i < s.n): v.same("i-th item", sat(q, i), s.at(i))
    else: v.same("missing items are the fill value", sat(q, i), fill)


@contract(it + "unpack", variants=ALL)
def _(v, kind):
    n, s, fill = v.int("n", 0), v.source("s", kind), v.obj("fill")
    r = v.total("call", lambda: v.call(it + "unpack", n, s.value, fillvalue=fill))
    q = tseq(r)
    v.oblige("n items and a tail", iz(slen(q)) == n.t + 1)
    tl = sat(q, n.t)
    which = v.choose(2)
    if which == 0:
        rest = SSeq(None, lambda i: s.at(n.t + i), inf=True) if s.inf else SSeq(zmax(SInt(s.n - n.t), 0), lambda i: s.at(n.t + i))
        v.stream("tail", tl, rest)
    else:
        i = v.c.int("i"); v.c.index(i)
        v.assume(z3.And(0 <= i, i < n.t))
        if s.inf or v.case(i < s.n): v.same("i-th item", sat(q, i), s.at(i))
        else: v.same("missing items are the fill value", sat(q, i), fill)


@contract(it + "unpack", name=it + "unpack (n, k <= 4)", variants=[(n, k, kd) for n in range(4) for k in range(5) for kd in ("iterator", "list") if n != k])
def _(v, var):
    n, k, kind = var
    s, fill = v.source("s", kind), v.obj("fill")
    r = v.total("call", lambda: v.call(it + "unpack", n, s.value, k=k, fillvalue=fill))
    q = tseq(r)
    v.oblige("n items and a tail", iz(slen(q)) == n + 1)
    short = v.case(s.n < n)
    for i in range(n):
        v.same("item", sat(q, i), ite(s.n > i, s.at(i), fill))
    if short: v.stream("tail is empty when items run out", sat(q, n), CSeq(()))
    else: v.stream("k-th tail", sat(q, n), SSeq(zmax(SInt(s.n - k), 0), lambda i: s.at(k + i)))


# ---- slicing.islice: slice syntax
SGN = {"none": None, "neg": -1, "nonneg": 0}


def slice_arg(v, name, how):
    if how == "none": return None
    return v.int(name, hi=-1) if how == "neg" else v.int(name, 0)


@contract("unpythonic.slicing:islice", variants=[(a, b, k) for a in ("none", "neg", "nonneg") for b in ("none", "neg", "nonneg") for k in ("iterator", "list")])
def _(v, var):
    a, b, kind = var
    s = v.source("s", kind)
    lo, hi = slice_arg(v, "start", a), slice_arg(v, "stop", b)
    use(v, "butlastn") if (a, b) != ("neg", "neg") else use(v, "butlastn", "lastn")
    o = v.total("islice()", lambda: v.call("unpythonic.slicing:islice", s.value))
    r = v.total("[...]", lambda: v.p.getitem(o, slice(lo, hi, None)))
    n = s.n
    def clip(x, dflt):
        if x is None: return dflt
        x = z3.If(x.t < 0, x.t + n, x.t)
        return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
    l, h = z3.simplify(clip(lo, z3.IntVal(0))), z3.simplify(clip(hi, n))
    m = z3.If(h > l, h - l, z3.IntVal(0))
    v.stream("same items as list(s)[start:stop]", r, SSeq(m, lambda i: s.at(l + i)))


@contract("unpythonic.slicing:islice", name="unpythonic.slicing:islice (index)", variants=[(a, k) for a in ("neg", "nonneg") for k in ("iterator", "list")])
def _(v, var):
    a, kind = var
    s = v.source("s", kind)
    k = slice_arg(v, "k", a)
    o = v.total("islice()", lambda: v.call("unpythonic.slicing:islice", s.value))
    r = v.total("[k]", lambda: v.p.getitem(o, k))
    j = k.t + s.n if a == "neg" else k.t
    v.same("same item as list(s)[k], None when out of range", r, s.at(j) if v.case(z3.And(j >= 0, j < s.n)) else None)

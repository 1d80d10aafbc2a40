"""P03: functional update is slice assignment on a copy; slice membership agrees with Python's slicing."""
from spec import *
from lib import *
C, FP, SL = "unpythonic.collections:", "unpythonic.fup:", "unpythonic.slicing:"
TRUSTED = ["range and slice semantics (slice.indices, membership in a range) as documented: the oracle for what slicing selects (pyvc/models.py)", "copy.copy of a dict or list (pyvc/models.py)"]
ASSUMPTIONS = ["slice steps are the constants -3..3; start, stop, lengths and items are arbitrary"]
STEPS = [None, 1, 2, 3, -1, -2, -3]


def bnds(v, n, a, b, st):
    """an in-range slice of a sequence of length n"""
    i = v.int("i") if a else None; j = v.int("j") if b else None
    for x in (i, j):
        if x is not None: v.assume(z3.And(-n <= x.t, x.t <= n))
    return slice(i, j, st)


def sel(v, sl, n):
    """positions Python's slicing selects"""
    return to_rng(v.p.getitem(Rng(0, mki(n), 1), sl))


def member(r, k):
    st = conc(r.step); a, b = iz(r.start), iz(r.stop)
    on = (k - a) % abs(st) == 0
    return z3.And(a <= k, k < b, on) if st > 0 else z3.And(k <= a, k > b, on)


def ordinal(r, k):
    st = conc(r.step)
    return (k - iz(r.start)) / st if st > 0 else (iz(r.start) - k) / (-st)


SL3 = [(a, b, st) for a in (0, 1) for b in (0, 1) for st in STEPS]


@contract([C + "in_slice", C + "index_in_slice"], name=C + "in_slice, index_in_slice", variants=SL3)
def _(v, var):
    n = v.int("n", 1); k = v.int("k")
    v.assume(z3.And(-n.t <= k.t, k.t < n.t))
    sl = bnds(v, n.t, *var)
    r = sel(v, sl, n.t)
    kk = z3.If(k.t < 0, k.t + n.t, k.t)
    if v.choose(2):
        v.oblige("membership", v.truthy(v.total("in_slice", lambda: v.call(C + "in_slice", k, sl, n))) == member(r, kk))
    else:
        x = v.total("index_in_slice", lambda: v.call(C + "index_in_slice", k, sl, n))
        if x is None: v.oblige("None only outside", z3.Not(member(r, kk)))
        else: v.oblige("inside", member(r, kk)); v.oblige("which one", iz(x) == ordinal(r, kk))


@contract(C + "in_slice", name=C + "in_slice (an integer)")
def _(v):
    n = v.int("n", 1); k = v.int("k"); s = v.int("s")
    v.assume(z3.And(-n.t <= k.t, k.t < n.t, -n.t <= s.t, s.t < n.t))
    v.oblige("membership", v.truthy(v.total("in_slice", lambda: v.call(C + "in_slice", k, s, n))) == (z3.If(k.t < 0, k.t + n.t, k.t) == z3.If(s.t < 0, s.t + n.t, s.t)))


@contract(C + "in_slice", name=C + "in_slice (without a length)", variants=[1, 2, 3, "none"])
def _(v, st):
    st = None if st == "none" else st
    """nonnegative start, stop and index need no length"""
    k, a, b = v.int("k", 0), v.int("a", 0), v.int("b", 0)
    v.oblige("membership", v.truthy(v.total("in_slice", lambda: v.call(C + "in_slice", k, slice(a, b, st)))) == member(Rng(a, b, st or 1), k.t))


def target(v, kind):
    s = v.source("old", kind)
    v.assume(s.n >= 1)
    return s


def upd(seq, r, vals):
    """the sequence after assigning vals at the positions r"""
    return lambda k: ite(member(r, k), vals(ordinal(r, k)), seq(k))


def same_type(v, kind, got): v.oblige("same type", z3.BoolVal(isinstance(got, ListObj) and type(got) is ListObj if kind == "list" else isinstance(got, (tuple, STuple))))


@contract(FP + "fupdate", name=FP + "fupdate (an item)", variants=["list", "tuple"])
def _(v, kind):
    s = target(v, kind)
    k = v.int("k"); x = v.obj("x")
    v.assume(z3.And(-s.n <= k.t, k.t < s.n))
    w = z3.If(k.t < 0, k.t + s.n, k.t)
    new = lambda i: ite(i == w, x, s.at(i))
    v.hint(new)
    if v.choose(2):
        g = v.total("update", lambda: v.call(FP + "fupdate", s.value, k, x))
    else: g = v.total("update", lambda: v.method(v.p.getitem(v.call(SL + "fup", s.value), k), "__lshift__", x))
    same_type(v, kind, g); v.same("items", v.items(g), SSeq(s.n, new)); v.oblige("a new sequence", z3.BoolVal(g is not s.value)); v.same("original unchanged", v.items(s.value), s.seq)


@contract(FP + "fupdate", name=FP + "fupdate (a slice)", variants=[(k, *x) for k in ("list", "tuple") for x in SL3 if (x[0] and x[1] and abs(x[2] or 1) < 3) if k == "list" or x[2] in (None, -1)])
def _(v, var): a_slice(v, var)


@contract(FP + "fupdate", name=FP + "fupdate (a slice; all)", variants=[(k, *x) for k in ("list", "tuple") for x in SL3], tier="thorough")
def _(v, var): a_slice(v, var)


def a_slice(v, var):
    kind, *rest = var
    s = target(v, kind)
    sl = bnds(v, s.n, *rest)
    r = sel(v, sl, s.n)
    t = v.source("new", "tuple" if kind == "list" else "list")
    v.assume(t.n >= iz(md.py_len(v.p, r)))
    new = upd(s.at, r, t.at)
    v.hint(new)
    g = v.total("update", lambda: v.call(FP + "fupdate", s.value, sl, t.value))
    same_type(v, kind, g); v.same("items", v.items(g), SSeq(s.n, new)); v.same("original unchanged", v.items(s.value), s.seq)


@contract(FP + "fupdate", name=FP + "fupdate (a slice, values from an iterator)", variants=[(1, 0, None), (0, 1, 2)])
def _(v, var): from_iterator(v, var)


@contract(FP + "fupdate", name=FP + "fupdate (a slice, values from an iterator; all)", variants=[x for x in SL3 if x[2] is None or x[2] > 0], tier="thorough")
def _(v, var): from_iterator(v, var)


def from_iterator(v, var):
    s = target(v, "list")
    sl = bnds(v, s.n, *var)
    r = sel(v, sl, s.n)
    t = v.source("new", ("iterator", "infinite")[v.choose(2)])
    if not t.inf: v.assume(t.n >= iz(md.py_len(v.p, r)))
    new = upd(s.at, r, t.at)
    v.hint(new)
    st = conc(r.step); m = iz(md.py_len(v.p, r))
    v.hint(lambda i: mki(z3.If(i <= iz(r.start), 0, z3.If((i - iz(r.start) + st - 1) / st <= m, (i - iz(r.start) + st - 1) / st, m))))   # how many values have been used before position i
    g = v.total("update", lambda: v.call(FP + "fupdate", s.value, sl, t.value))
    v.same("items", v.items(g), SSeq(s.n, new)); v.same("original unchanged", v.items(s.value), s.seq)


@contract(FP + "fupdate", name=FP + "fupdate (several)", variants=["items", "item slice", "slice item", "slices"])
def _(v, how):
    """assignments in order: later ones see earlier ones"""
    s = target(v, "list")
    f = s.at
    ixs, vals = [], []
    for q, w in enumerate(how.replace("items", "item item").replace("slices", "slice slice").split()):
        if w == "item":
            k = v.int(f"k{q}"); x = v.obj(f"x{q}"); v.assume(z3.And(-s.n <= k.t, k.t < s.n))
            f = (lambda f, k, x: lambda i: ite(i == z3.If(k.t < 0, k.t + s.n, k.t), x, f(i)))(f, k, x)
            ixs.append(k); vals.append(x)
        else:
            a = v.int(f"a{q}"); v.assume(z3.And(-s.n <= a.t, a.t <= s.n))
            sl = slice(a, None, 2 if q else None); r = sel(v, sl, s.n); t = v.source(f"new{q}", "list"); v.assume(t.n >= iz(md.py_len(v.p, r)))
            f = upd(f, r, t.at); ixs.append(sl); vals.append(t.value)
    v.hint(f)
    mk = [tuple, lambda x: ListObj(CSeq(x))][v.choose(2)]
    g = v.total("update", lambda: v.call(FP + "fupdate", s.value, mk(ixs), mk(vals)))
    v.same("items", v.items(g), SSeq(s.n, f)); v.same("original unchanged", v.items(s.value), s.seq)


@contract(FP + "fupdate", name=FP + "fupdate (mappings)", variants=["dict", "frozendict", "nothing"])
def _(v, how):
    x, y = v.obj("x"), v.obj("y")
    d = DictObj(); d.raw_set("a", v.obj("oa")); d.raw_set("b", v.obj("ob"))
    t = d if how != "frozendict" else v.call(C + "frozendict", d)
    if how == "nothing": g = v.total("copy", lambda: v.call(FP + "fupdate", t)); want = {"a": v.obj("oa"), "b": v.obj("ob")}
    else: g = v.total("update", lambda: v.call(FP + "fupdate", t, b=x, c=y)); want = {"a": v.obj("oa"), "b": x, "c": y}
    v.oblige("size", iz(md.py_len(v.p, g)) == len(want))
    for k in want: v.same("entry", v.p.getitem(g, k), want[k])
    v.oblige("a new mapping", z3.BoolVal(g is not t)); v.oblige("same type", z3.BoolVal(md.py_type(v.p, g) is md.py_type(v.p, t)))
    v.oblige("original size", iz(md.py_len(v.p, t)) == 2); v.same("original unchanged", v.p.getitem(t, "b"), v.obj("ob"))
    v.must_raise("indices and bindings", ValueError, lambda: v.call(FP + "fupdate", t, 0, x, b=y))


@contract(C + "ShadowedSequence", name=C + "ShadowedSequence (reading)", variants=[(how, st, 0) for how in ("index", "iterate", "len") for st in ("item", None, 2, -1)] + [("slice", *x) for x in (("item", None), ("item", -1), (None, 2), (2, None), (-1, -2), (2, -1))])
def _(v, var):
    how, st, st2 = var
    s = target(v, "list")
    if st == "item":
        k = v.int("k"); x = v.obj("x"); v.assume(z3.And(-s.n <= k.t, k.t < s.n)); ix, val = k, x
        new = lambda i: ite(i == z3.If(k.t < 0, k.t + s.n, k.t), x, s.at(i))
    else:
        ix = bnds(v, s.n, 1, 1, st); r = sel(v, ix, s.n); t = v.source("new", "tuple"); v.assume(t.n >= iz(md.py_len(v.p, r))); val = t.value; new = upd(s.at, r, t.at)
    q = v.total("make", lambda: v.call(C + "ShadowedSequence", s.value, ix, val))
    if how == "len": v.oblige("length", iz(md.py_len(v.p, q)) == s.n)
    elif how == "iterate": v.stream("items", q, SSeq(s.n, new))
    elif how == "index":
        i = v.int("at")
        if v.case(z3.And(-s.n <= i.t, i.t < s.n)): v.same("item", v.total("index", lambda: v.p.getitem(q, i)), new(z3.If(i.t < 0, i.t + s.n, i.t)))
        else: v.must_raise("out of range", IndexError, lambda: v.p.getitem(q, i))
    else:
        sl2 = slice(v.int("p"), v.int("q"), st2)
        w = v.items(v.p.getitem(ListObj(SSeq(s.n, new)), sl2))
        v.hint(lambda i: sat(w, i)); v.bound(slen(w))
        v.same("slice", v.items(v.total("slice", lambda: v.p.getitem(q, sl2))), w)

"""P04: views show, and write through to, the underlying sequence's current contents."""
from spec import *
from lib import *
C = "unpythonic.collections:"
TRUSTED = ["range and slice semantics as documented (pyvc/models.py): indexing a list with a slice is the oracle for what a view shows", "list item assignment (pyvc/models.py)"]
ASSUMPTIONS = ["slice steps are the constants -3..3 (nesting: steps -2..2, two levels); start, stop, lengths and items are arbitrary", "the underlying sequence changes length arbitrarily between reads: it is replaced by any other contents"]
STEPS = [None, 1, 2, 3, -1, -2, -3]


def sl(v, st, tag=""):
    return slice(v.int("i" + tag), v.int("j" + tag), st) if st != "all" else slice(None, None, None)


def seqs(v, kind="list"):
    """an underlying list with arbitrary contents now, and other arbitrary contents (and length) later"""
    setup(v)
    a = v.source("old", kind)
    b = v.source("new", "list")
    return a, b


def setup(v): v.c.name_slices = True


def positions(v, n, *slices):
    r = Rng(0, mki(n), 1)
    for s in slices: r = to_rng(v.p.getitem(r, s))
    return r


def viewed(v, at, n, slices):
    r = positions(v, n, *slices)
    st = conc(r.step)
    return SSeq(iz(md.py_len(v.p, r)), lambda k: at(z3.simplify(iz(r.start) + k * st)))


KINDS = ["roview", "view"]
FORMS = [(k, (st,)) for k in KINDS for st in STEPS + ["all"]] + [("roview", x) for x in ((1, 2), (2, None), (-1, 2), (2, -1), (-2, -2), ("all", 2), (-1, "all"))]


def make(v, kind, a, sts):
    ss = [sl(v, st, str(q)) for q, st in enumerate(sts)]
    w = a
    for q, s in enumerate(ss):
        cls = kind
        if q == 0 or v.choose(2): w = v.total("view", lambda: v.call(C + cls, w, s) if s != slice(None, None, None) or v.choose(2) else v.call(C + cls, w))
        else: w = v.total("slice of the view", lambda: v.p.getitem(w, s))
    return w, ss


def check(v, how, w, want):
    n = iz(slen(want))
    if how == "len": v.oblige("length", iz(md.py_len(v.p, w)) == n)
    elif how == "index":
        k = v.int("k")
        if v.case(z3.And(-n <= k.t, k.t < n)): v.same("item", v.total("index", lambda: v.p.getitem(w, k)), sat(want, z3.simplify(z3.If(k.t < 0, k.t + n, k.t))))
        else: v.must_raise("out of range", IndexError, lambda: v.p.getitem(w, k))
    else: v.stream("items", w, want)


@contract([C + "roview", C + "view"], name=C + "view, roview (reading)", variants=[(*f, h) for f in FORMS for h in ("len", "index", "iterate")])
def _(v, var):
    kind, sts, how = var
    a, b = seqs(v)
    w, ss = make(v, kind, a.value, sts)
    when = v.choose(3)
    if when: v.total("a read before", lambda: md.py_len(v.p, w))
    if when < 2: check(v, how, w, viewed(v, a.at, a.n, ss))
    else:
        a.value.put(b.seq)      # the underlying sequence changes, in contents and length
        check(v, how, w, viewed(v, b.at, b.n, ss))


@contract(C + "roview", name=C + "roview (a tuple, nested in a read view)", variants=["len", "index", "iterate"])
def _(v, how):
    a = v.source("old", "tuple")
    w, ss = make(v, "roview", a.value, (2,))
    check(v, how, w, viewed(v, a.at, a.n, ss))


def written(at, r, vals, n=None):
    """contents after writing vals(0), vals(1), ... (the first n) at the positions r"""
    st = conc(r.step); a, b = iz(r.start), iz(r.stop)
    def f(k):
        on = (k - a) % abs(st) == 0
        mem = z3.And(a <= k, k < b, on) if st > 0 else z3.And(k <= a, k > b, on)
        o = (k - a) / st if st > 0 else (a - k) / (-st)
        if n is not None: mem = z3.And(mem, o < n)
        return ite(mem, vals(o), at(k))
    return f


@contract(C + "view", name=C + "view (assigning an item)", variants=[(st,) for st in STEPS] + [(1, 2), (-1, 2), (2, -2)])
def _(v, sts):
    a, b = seqs(v)
    w, ss = make(v, "view", a.value, sts)
    if v.choose(2): v.total("a read before", lambda: md.py_len(v.p, w)); a.value.put(b.seq); a = b_ = type("S", (), {"value": a.value, "at": b.at, "n": b.n, "seq": b.seq})
    r = positions(v, a.n, *ss); n = iz(md.py_len(v.p, r))
    k = v.int("k"); x = v.obj("x")
    if v.case(z3.And(-n <= k.t, k.t < n)):
        v.total("assign", lambda: v.p.setitem(w, k, x))
        at = iz(r.start) + z3.If(k.t < 0, k.t + n, k.t) * conc(r.step)
        v.same("exactly that position", a.value.seq, SSeq(a.n, lambda i: ite(i == at, x, a.at(i))))
    else:
        v.must_raise("out of range", IndexError, lambda: v.p.setitem(w, k, x))
        v.same("nothing changed", a.value.seq, a.seq)


@contract(C + "view", name=C + "view (assigning a slice)", variants=[(st, st2) for st in (None, 2, -1) for st2 in (None, 2, -1)])
def _(v, sts):
    st, st2 = sts
    a, _ = seqs(v)
    w, ss = make(v, "view", a.value, (st,))
    s2 = sl(v, st2, "s")
    r = positions(v, a.n, *ss, s2)
    how = v.choose(3)
    if how == 2: val = x = v.int("x"); n = None; vals = lambda o: x
    else: t = v.source("val", ("list", "iterator")[how]); val = t.value; vals = t.at; n = t.n
    new = written(a.at, r, vals, n)
    v.c.hints2.append(lambda i, k: written(a.at, r, vals, k)(i))     # while writing: the first k are written
    v.bound(md.py_len(v.p, r))
    v.total("assign", lambda: v.p.setitem(w, s2, val))
    v.same("exactly those positions", a.value.seq, SSeq(a.n, new))


@contract([C + "view.__init__"], name=C + "view (read-only)", variants=["tuple", "str", "roview", "range", "view of roview"])
def _(v, how):
    a = v.source("old", "list")
    o = {"tuple": lambda: (1, 2), "str": lambda: "abc", "range": lambda: range(3), "roview": lambda: v.call(C + "roview", a.value), "view of roview": lambda: v.p.getitem(v.call(C + "roview", a.value), slice(1, None, None))}[how]()
    v.must_raise("refused", TypeError, lambda: v.call(C + "view", o))
    if "roview" in how:
        v.must_raise("no item assignment", (TypeError, AttributeError), lambda: v.p.setitem(o, 0, 1)); v.same("unchanged", a.value.seq, a.seq)

"""P08: folds, scans and unfolds agree with their recursive definitions."""
from spec import *
from lib import *
F = "unpythonic.fold:"
KINDS = ("iterator", "list", "iterable")
TRUSTED = ["zip, itertools.zip_longest, reversed, collections.deque: modelled from their documentation (pyvc/models.py)"]
ASSUMPTIONS = ["inputs behave as sequences: an item, once produced by the input, is not changed by other code meanwhile", "numbers and the order < of the elements of (running_)minmax are uninterpreted: nothing is assumed about it"]
VARS = [(k, m, lg) for k in KINDS for m in (1, 2) for lg in (False, True)] + [("list", 3, False), ("iterator", 3, True)]
ONE = [(k, m, lg) for k in KINDS for m in (1,) for lg in (False,)] + [("list", 2, False), ("iterator", 2, True)]


class Case:
    """m inputs; row(i) = their i-th items; A(0) = init, A(i+1) = step(row(i)..., A(i)), from the front or from the back"""
    def __init__(s, v, kind, m, longest, back=False, each=False, infinite=False):
        c = s.c = v.c; s.v = v
        s.fill = v.obj("fill")
        s.src = [v.source(f"s{j}", "infinite" if infinite else kind if j == 0 else ("list", "iterator")[j % 2]) for j in range(m)]
        s.init = v.public(v.obj("init"), "unpythonic.fold")
        c.mins = longest
        s.inf = infinite
        if infinite: s.n = None
        else:
            s.n = s.src[0].n
            for q in s.src[1:]: s.n = z3.If((q.n > s.n) if longest else (q.n < s.n), q.n, s.n)
            v.bound(s.n)
        s.kw = {"longest": True, "fillvalue": s.fill} if longest else {}
        def item(q, i):
            if each: return toU(q.at(q.n - 1 - i))          # each input reversed on its own
            return toU(q.at(i))
        def row(i):
            if back: i = s.n - 1 - i
            return [z3.If(i < q.n, item(q, i), s.fill.t) if longest else item(q, i) for q in s.src]
        s.row = row
        s.step = z3.Function("step", *([U] * m), U, U)
        s.A = z3.Function("A", I, U)
        s.calls = HObj(k=0)
        s.start(0)
        v.hint(lambda i: SU(s.A(i)))
        def host(p, args, kw):
            k = iz(s.calls.get("k")); c.index(k)
            v.oblige("as many arguments as inputs, and the accumulator", z3.BoolVal(len(args) == m + 1 and not kw))
            s.calls.set("k", mki(k + 1))
            return SU(s.step(*[toU(a) for a in args]))
        s.proc = Fn(host, "proc")
    def start(s, off, first=None):
        """A starts from init, the first row used being the off-th"""
        s.first = s.init.t if first is None else first
        v = s.v
        v.assume(s.A(0) == s.first)
        s.c.recdef(lambda i: z3.Implies(i >= 0, s.A(i + 1) == s.step(*s.row(i + off), s.A(i))))
    @property
    def args(s): return [q.value for q in s.src]
    def count(s, want):
        s.v.oblige("the function is called once per step", iz(s.calls.get("k")) == want)
    def scan(s, r):
        """yields A(0) .. A(n), lazily"""
        c = s.c
        spec = SSeq(None, lambda i: SU(s.A(i)), inf=True) if s.inf else SSeq(s.n + 1, lambda i: SU(s.A(i)))
        s.v.stream("every intermediate value", r, spec, at_yield=lambda k: s.count(k))


@contract(F + "scanl", variants=VARS)
def _(v, var):
    x = Case(v, *var)
    x.scan(v.total("call", lambda: v.call(F + "scanl", x.proc, x.init, *x.args, **x.kw)))


@contract(F + "scanl", name=F + "scanl (infinite inputs)", variants=[1, 2])
def _(v, m):
    x = Case(v, None, m, False, infinite=True)
    x.scan(v.total("call", lambda: v.call(F + "scanl", x.proc, x.init, *x.args)))


@contract(F + "scanr", variants=VARS)
def _(v, var):
    x = Case(v, *var, back=True)
    x.scan(v.total("call", lambda: v.call(F + "scanr", x.proc, x.init, *x.args, **x.kw)))


@contract(F + "rscanl", variants=VARS)
def _(v, var):
    x = Case(v, *var, each=True)
    x.scan(v.total("call", lambda: v.call(F + "rscanl", x.proc, x.init, *x.args, **x.kw)))


def fold(f, back, each, variants):
    @contract(F + f, variants=variants)
    def _(v, var):
        x = Case(v, *var, back=back, each=each)
        r = v.total("call", lambda: v.call(F + f, x.proc, x.init, *x.args, **x.kw))
        x.c.index(x.n); x.count(x.n)
        v.same("value of the recursive definition", r, SU(x.A(x.n)))


fold("foldl", False, False, VARS)
fold("foldr", True, False, VARS)
fold("rfoldl", False, True, VARS)


# one input, which may give the initial value
class One(Case):
    def __init__(s, v, kind, mode, back):
        s.mode, s.back = mode, back
        super().__init__(v, kind, 1, False, back=back)
        s.given = [] if mode == "none" else [s.init]
        if mode != "none": v.assume(s.init.t != toU(None))
    def start(s, off, first=None):
        if s.mode == "none": super().start(1, s.row(z3.IntVal(0))[0])
        else: super().start(0)
    def scan1(s, r):
        v = s.v
        if s.mode == "given": s.scan(r)
        elif v.case(s.n == 0): v.stream("empty input", r, CSeq(()))
        else: v.stream("every intermediate value", r, SSeq(s.n, lambda i: SU(s.A(i))), at_yield=lambda k: s.count(k))
    def reduce(s, r):
        v = s.v
        if s.mode == "given": s.c.index(s.n); s.count(s.n); v.same("fold", r, SU(s.A(s.n)))
        elif v.case(s.n == 0): v.same("empty input", r, None)
        else: s.c.index(s.n - 1); s.count(s.n - 1); v.same("fold from the first item", r, SU(s.A(s.n - 1)))


for f, back, red in (("scanl1", False, False), ("scanr1", True, False), ("rscanl1", True, False), ("reducel", False, True), ("reducer", True, True), ("rreducel", True, True)):
    @contract(F + f, variants=[(k, m) for k in KINDS for m in ("none", "given")])
    def _(v, var, f=f, back=back, red=red):
        x = One(v, *var, back)
        byname = {"init": x.given[0]} if x.given and v.choose(2) else None
        r = v.total("call", lambda: v.call(F + f, x.proc, *x.args, **byname) if byname else v.call(F + f, x.proc, *x.args, *x.given))
        (x.reduce if red else x.scan1)(r)


# ---- unfold
@contract(F + "unfold1", variants=["ends", "endless"])
def _(v, how):
    """state(k+1), value(k) from the k-th result; ends at the first None"""
    c = v.c
    st, val = z3.Function("state", I, U), z3.Function("value", I, U)
    N = v.int("N", 0).t; v.bound(N)
    g = HObj(k=0)
    v.hint(lambda i: SU(st(i)))
    def host(p, args, kw):
        k = iz(g.get("k")); c.index(k)
        v.oblige("one argument", z3.BoolVal(len(args) == 1 and not kw))
        v.oblige("the state of the step before", toU(args[0]) == st(k))
        g.set("k", mki(k + 1))
        if how == "ends":
            v.oblige("not called after the end", k <= N)
            if v.case(k == N): return None
        return (SU(val(k)), SU(st(k + 1)))
    r = v.total("call", lambda: v.call(F + "unfold1", Fn(host, "proc"), SU(st(0))))
    at = lambda i: SU(val(i))
    cnt = lambda k: v.oblige("lazy: one step per item", iz(g.get("k")) == k + 1)
    if how == "endless": v.stream("the values produced", r, SSeq(None, at, inf=True), at_yield=cnt)
    else: v.stream("the values produced", r, SSeq(N, at), at_yield=cnt, at_end=lambda k: v.oblige("one more step to find the end", iz(g.get("k")) == N + 1))


def values(v):
    v.call("unpythonic.lazyutil:_init_module"); v.call("unpythonic.funutil:_init_module")
    v.p.summaries["unpythonic.lazyutil:force"] = lambda p, a, kw: a[0]


@contract(F + "unfold", variants=[(a, b) for a in (1, 2, 3) for b in ((), ("x",), ("x", "y"))])
def _(v, var):
    m, names = var
    c = v.c
    values(v)
    st = [z3.Function(f"state{j}", I, U) for j in range(m)]; ks = {n: z3.Function(f"state_{n}", I, U) for n in names}
    val = z3.Function("value", I, U)
    N = v.int("N", 0).t; v.bound(N)
    g = HObj(k=0)
    for q in st + list(ks.values()): v.hint(lambda i, q=q: SU(q(i)))
    def host(p, args, kw):
        k = iz(g.get("k")); c.index(k)
        v.oblige("arguments", z3.BoolVal(len(args) == m and set(kw) == set(names)))
        for j in range(m): v.oblige(f"state {j}", toU(args[j]) == st[j](k))
        for n in names: v.oblige(f"state {n}", toU(kw[n]) == ks[n](k))
        v.oblige("not called after the end", k <= N)
        g.set("k", mki(k + 1))
        if v.case(k == N): return None
        return v.call("unpythonic.funutil:Values", SU(val(k)), *[SU(q(k + 1)) for q in st], **{n: SU(ks[n](k + 1)) for n in names})
    r = v.total("call", lambda: v.call(F + "unfold", Fn(host, "proc"), *[SU(q(0)) for q in st], **{n: SU(ks[n](0)) for n in names}))
    v.stream("the values produced", r, SSeq(N, lambda i: SU(val(i))), at_yield=lambda k: v.oblige("lazy: one step per item", iz(g.get("k")) == k + 1))


@contract(F + "unfold", name=F + "unfold (wrong result type)")
def _(v):
    v.must_raise("neither None nor Values", TypeError, lambda: v.next(py_iter(v.p, v.call(F + "unfold", Fn(lambda p, a, kw: 42, "proc"), 1))))


# ---- prod, minmax
@contract(F + "prod", variants=[(k, s) for k in KINDS for s in ("default", "given")])
def _(v, var):
    kind, how = var
    c = v.c
    s = v.source("s", kind, "int")
    A = z3.Function("A", I, I)
    st = v.int("start")
    v.assume(A(0) == (st.t if how == "given" else 1))
    c.recdef(lambda i: z3.Implies(i >= 0, A(i + 1) == iz(s.at(i)) * A(i)))
    v.hint(lambda i: mki(A(i)))
    r = v.total("call", lambda: v.call(F + "prod", s.value, **({"start": st} if how == "given" else {})))
    c.index(s.n)
    v.same("product", r, mki(A(s.n)))


def mm(v, kind):
    c = v.c
    s = v.source("s", kind, "int")
    lo, hi = z3.Function("lo", I, I), z3.Function("hi", I, I)
    x = lambda i: iz(s.at(i))
    v.assume(z3.And(lo(0) == x(0), hi(0) == x(0)))
    c.recdef(lambda i: z3.Implies(i >= 0, z3.And(lo(i + 1) == z3.If(x(i + 1) < lo(i), x(i + 1), lo(i)), hi(i + 1) == z3.If(x(i + 1) > hi(i), x(i + 1), hi(i)))))
    v.hint(lambda i: mki(lo(i))); v.hint(lambda i: mki(hi(i)))
    return s, lo, hi


@contract(F + "running_minmax", variants=KINDS)
def _(v, kind):
    s, lo, hi = mm(v, kind)
    r = v.total("call", lambda: v.call(F + "running_minmax", s.value))
    if v.case(s.n == 0): v.stream("empty input", r, CSeq(()))
    else: v.stream("minimum and maximum so far", r, SSeq(s.n, lambda i: (mki(lo(i)), mki(hi(i)))))


@contract(F + "minmax", variants=KINDS)
def _(v, kind):
    s, lo, hi = mm(v, kind)
    use(v, "last")
    def running(p, a, kw):
        """contract of running_minmax, proved above"""
        i, r = closed(p, a[0])
        return GenSum(i, SSeq(iz(slen(r)), lambda k: (mki(lo(k)), mki(hi(k)))), lambda k: k, lambda: iz(slen(r)))
    v.p.summaries[F + "running_minmax"] = running
    r = v.total("call", lambda: v.call(F + "minmax", s.value))
    if v.case(s.n == 0): v.same("empty input", r, (None, None))
    else: v.c.index(s.n - 1); v.same("minimum and maximum", r, (mki(lo(s.n - 1)), mki(hi(s.n - 1))))

"""P09: memoized generators: every reader sees the one run of the underlying generator, each item computed once."""
from spec import *
from lib import *
G = "unpythonic.gmemo:"
TRUSTED = ["inspect.signature, Signature.bind and BoundArguments.apply_defaults: CPython's own source, interpreted", "list, dict and RLock as documented; one list or dict access is atomic"]
ASSUMPTIONS = ["the arguments are opaque hashable values whose equality is identity of the opaque term (equal arguments are one term)"]


class ExcIter(SrcIter):
    """a generator that yields the items and then raises; afterwards it is finished"""
    def __init__(self, seq, exc):
        super().__init__(seq); self.exc = exc; self.cells["dead"] = False
    def nxt(self, p):
        try: return super().nxt(p)
        except Stop:
            dead = self.get("dead")
            if p.c.branch(bz(dead)): raise Stop
            self.set("dead", True)
            raise PyRaise(self.exc)


def gen(v, kind="iterator", params=(), exc=None):
    """a user's generator function: each call gives an iterator over a sequence of arbitrary items"""
    runs = []
    s = v.source("item", kind)
    if exc is not None: s.value = ExcIter(s.seq, exc)
    OK = v.get(G + "_success")
    v.hint(lambda i: (OK, s.at(i)))
    def body(p, a, kw):
        runs.append((tuple(a), dict(kw)))
        return s.value if len(runs) == 1 else v.source(f"item{len(runs)}", kind).value
    f = Fn(body, "gfunc"); f.params = list(params)
    return f, s, runs


def read(v, r, n):
    """n items from reader r"""
    u = v.user("def read(r, n):\n    for _ in range(n):\n        next(r)\n")
    v.total("read on", lambda: v.call(u.read, r, n))


@contract(G + "gmemoize", name=G + "gmemoize (one reader after another)", variants=["iterator", "infinite"])
def _(v, kind):
    f, s, runs = gen(v, kind)
    m = v.total("memoize", lambda: v.call(G + "gmemoize", f))
    v.oblige("nothing computed by decorating", z3.And(z3.BoolVal(not runs), s.pos == 0))
    r = v.total("reader", lambda: v.call(m))
    v.oblige("nothing computed by making a reader", s.pos == 0)
    v.stream("first reader", r, s.seq, at_yield=lambda k: v.oblige("computed when first needed", s.pos == k + 1))
    r2 = v.total("reader", lambda: v.call(m))
    v.stream("second reader", r2, s.seq, at_yield=lambda k: v.oblige("not computed again", s.pos == s.n), at_end=lambda k: v.oblige("not computed again", s.pos == s.n))
    v.oblige("the generator is started once", z3.BoolVal(len(runs) == 1))
    v.oblige("still at the end", z3.BoolVal(v.next(r)[0] == "end" and v.next(r2)[0] == "end"))


@contract(G + "gmemoize", name=G + "gmemoize (two readers, any positions)", variants=["infinite", "iterator"])
def _(v, kind):
    """whatever two readers have read before (their positions are the whole history), the first goes on at its own position"""
    f, s, runs = gen(v, kind)
    m = v.call(G + "gmemoize", f)
    r1, r2 = v.call(m), v.call(m)
    n1, n2 = v.int("n1", 0), v.int("n2", 0)
    if kind == "iterator": v.assume(n1.t <= s.n); v.assume(n2.t <= s.n)
    a, na, b, nb = (r1, n1, r2, n2) if v.choose(2) else (r2, n2, r1, n1)
    read(v, a, na)
    if v.case(nb.t <= na.t): read(v, b, nb)
    else: read(v, b, na); read(v, b, mki(nb.t - na.t))
    top = zmax(n1, n2)
    v.oblige("computed as far as needed", s.pos == top)
    k, x = v.next(r1)
    if k == "item":
        if not s.inf: v.oblige("only if there is one", n1.t < s.n)
        v.same("the item at its own position", x, s.at(n1.t)); v.oblige("computed once, when first needed", s.pos == zmax(mki(n1.t + 1), mki(top)))
        k, x = v.next(r2)
        if k == "item": v.same("the other reader, too", x, s.at(n2.t)); v.oblige("computed once, when first needed", s.pos == zmax(mki(n1.t + 1), mki(n2.t + 1)))
    else: v.oblige("ends where the generator ends", n1.t == s.n if not s.inf else z3.BoolVal(False))
    v.oblige("the generator is started once", z3.BoolVal(len(runs) == 1))


@contract(G + "gmemoize", name=G + "gmemoize (an exception in the generator)")
def _(v):
    e = v.obj("e"); v.assume(md.issub(md.typeof(e.t), toU(BaseException)))
    v.assume(e.t != toU(StopIteration)); v.assume(z3.Not(md.issub(md.typeof(e.t), toU(StopIteration))))
    f, s, runs = gen(v, exc=e)
    m = v.call(G + "gmemoize", f)
    r1, r2 = v.call(m), v.call(m)
    def at_end(r, tag):
        k, x = v.attempt(lambda: py_next_or_raise(v, r))
        v.oblige(tag + "/raised", z3.BoolVal(k == "raise"))
        v.oblige(tag + "/the identical exception", same(x, e))
    n = v.int("n", 0); v.assume(n.t <= s.n)
    read(v, r2, n)
    read(v, r1, n); read(v, r1, mki(s.n - n.t))
    v.oblige("computed so far", s.pos == s.n)
    at_end(r1, "first reader")
    r3 = v.call(m)
    read(v, r2, mki(s.n - n.t)); at_end(r2, "second reader, which was behind")
    read(v, r3, mki(s.n)); at_end(r3, "a new reader")
    v.oblige("not computed again", s.pos == s.n); v.oblige("the generator is started once", z3.BoolVal(len(runs) == 1))
    v.oblige("finished afterwards", z3.BoolVal(v.next(r1)[0] == "end" and v.next(r3)[0] == "end"))


def py_next_or_raise(v, r):
    try: return py_next(v.p, r)
    except Stop: v.oblige("not the end", False)


def some_read(v, kind="iterator", exc=None):
    f, s, runs = gen(v, kind, exc=exc)
    m = v.call(G + "gmemoize", f)
    r1, r2 = v.call(m), v.call(m)
    n = v.int("n", 0)
    if kind == "iterator": v.assume(n.t <= s.n)
    read(v, r1, n)
    return s, n, (r1, r2)[v.choose(2)], runs


@contract(G + "_MemoizedGenerator.__getitem__", name=G + "gmemoize (reading by index)", variants=["infinite", "iterator"])
def _(v, kind):
    s, n, r, runs = some_read(v, kind)
    i = v.int("i")
    v.oblige("length", iz(v.p.call(Builtin("len", lambda p, a, kw: py_len(p, a[0])), [r])) == n.t)
    if v.case(z3.And(-n.t <= i.t, i.t < n.t)): v.same("item", v.total("index", lambda: v.p.getitem(r, i)), s.at(z3.If(i.t < 0, i.t + n.t, i.t)))
    else: v.must_raise("out of range", IndexError, lambda: v.p.getitem(r, i))
    v.oblige("nothing computed", s.pos == n.t)


@contract(G + "_MemoizedGenerator.__getitem__", name=G + "gmemoize (reading by slice)", variants=[(a, b, st) for a in (0, 1) for b in (0, 1) for st in (None, 1, 2, -1, -2)])
def _(v, var):
    a, b, st = var
    s, n, r, runs = some_read(v, "infinite")
    sl = slice(v.int("i") if a else None, v.int("j") if b else None, st)
    want = v.items(v.p.getitem(ListObj(SSeq(n.t, s.seq.f)), sl))
    v.hint(lambda k: sat(want, k)); v.bound(slen(want))
    got = v.total("slice", lambda: v.p.getitem(r, sl))
    v.same("items", v.items(got), want); v.oblige("nothing computed", s.pos == n.t)


@contract(G + "_MemoizedGenerator.__getitem__", name=G + "gmemoize (bad index)")
def _(v):
    s, n, r, runs = some_read(v)
    for k in ("s", None, (1, 2)): v.must_raise("refused", TypeError, lambda: v.p.getitem(r, k))


@contract(G + "_MemoizedGenerator.__getitem__", name=G + "gmemoize (index of the exception)", variants=["index", "slice"])
def _(v, how):
    """the position at which the generator raised answers with that exception"""
    e = v.obj("e"); v.assume(md.issub(md.typeof(e.t), toU(BaseException))); v.assume(z3.Not(md.issub(md.typeof(e.t), toU(StopIteration))))
    f, s, runs = gen(v, exc=e)
    m = v.call(G + "gmemoize", f)
    r = v.call(m); read(v, r, mki(s.n)); v.attempt(lambda: py_next_or_raise(v, r))
    r2 = v.call(m)
    k, x = v.attempt(lambda: v.p.getitem(r2, mki(s.n) if how == "index" else slice(None, None, None)))
    v.oblige("the identical exception", z3.And(z3.BoolVal(k == "raise"), same(x, e)) if k == "raise" else False)


PAR = {"none": [], "a_b": [("a", 1, None), ("b", 1, None)], "varkw": [("a", 1, None), ("kws", 4, None)]}


@contract(G + "gmemoize", name=G + "gmemoize (which arguments share)", variants=["a_b", "varkw"])
def _(v, sig):
    runs = []
    srcs = []
    def body(p, a, kw): runs.append((tuple(a), dict(kw))); srcs.append(v.source(f"item{len(runs)}", "iterator")); return srcs[-1].value
    f = Fn(body, "gfunc"); f.params = PAR[sig]
    m = v.call(G + "gmemoize", f)
    x, y, x2, y2 = (v.obj(n) for n in ("x", "y", "x2", "y2"))
    st = {"a_b": [lambda x, y: ([x, y], {}), lambda x, y: ([], {"b": y, "a": x})], "varkw": [lambda x, y: ([x], {"p": y, "q": x}), lambda x, y: ([], {"q": x, "a": x, "p": y})]}[sig]
    a1, k1 = st[v.choose(2)](x, y); a2, k2 = st[v.choose(2)](x2, y2)
    r1 = v.total("reader", lambda: v.call(m, *a1, **k1)); v.oblige("started with the arguments given", z3.BoolVal(len(runs) == 1)); v.same("arguments", CSeq(runs[0][0]), CSeq(a1))
    for k in k1: v.same("named arguments", runs[0][1].get(k), k1[k])
    r2 = v.total("reader", lambda: v.call(m, *a2, **k2))
    sameb = z3.And(x.t == x2.t, y.t == y2.t)
    if v.case(sameb):
        v.oblige("equal arguments: one run", z3.BoolVal(len(runs) == 1))
        q1, q2 = v.next(r1), v.next(r2)
        v.oblige("same answer", z3.BoolVal(q1[0] == q2[0]))
        if q1[0] == "item" == q2[0]: v.same("same item", q1[1], q2[1])
        v.oblige("computed once", srcs[0].pos <= 1)
    else: v.oblige("other arguments: a run of their own", z3.BoolVal(len(runs) == 2))
    v.oblige("readers are different", z3.BoolVal(r1 is not r2))


@contract([G + "fimemoize", G + "imemoize"], name=G + "fimemoize, imemoize", variants=["fimemoize", "imemoize"])
def _(v, way):
    """against the contract of gmemoize: what is memoized yields the given iterable's items"""
    given, runs = [], []
    v.p.summaries[G + "gmemoize"] = lambda p, a, kw: (given.append(a[0]), Fn(lambda p, b, k2: p.call(a[0], b, k2), "memoized"))[1]
    s = v.source("item", ("iterable", "iterator", "list", "infinite")[v.choose(4)])
    x, y = v.obj("x"), v.obj("y")
    if way == "imemoize":
        m = v.total("imemoize", lambda: v.call(G + "imemoize", s.value)); r = v.total("reader", lambda: v.call(m))
    else:
        def fac(p, a, kw): runs.append((tuple(a), dict(kw))); return s.value
        f = Fn(fac, "ifactory"); f.params = [("a", 1, None), ("b", 1, None)]
        m = v.total("fimemoize", lambda: v.call(G + "fimemoize", f)); v.oblige("not called by decorating", z3.BoolVal(not runs))
        r = v.total("reader", lambda: v.call(m, x, b=y))
    v.oblige("memoized once", z3.BoolVal(len(given) == 1))
    v.stream("items", r, s.seq)
    if way == "fimemoize":
        v.oblige("factory called once", z3.BoolVal(len(runs) == 1)); v.same("with the arguments", runs[0][0], (x,)); v.same("with the arguments", runs[0][1].get("b"), y)


def interfere(v, m, other):
    """other threads act whenever no lock is held (both threads take the same locks)"""
    for o in v.c.objs.values():
        if isinstance(o, DictObj) and o.uid > 0: o.shared = True
        if type(o) is ListObj and o.uid > 0: o.shared = True
    locked = lambda: any(isinstance(o, LockObj) and o.get("held") for o in v.c.objs.values())
    busy, done = [], []
    def act(p):
        if v.c.init_stack or done or busy or locked() or not v.c.choose(2): return
        busy.append(1); done.append(1)
        other()
        busy.pop()
    def acquire(p, lock):
        if lock.get("held") == 1 and not busy:
            lock.set("held", 0); act(p); lock.set("held", 1)
    v.c.on_table = lambda p, dd, k, kind: act(p)
    v.c.x.on_acquire = acquire
    return act


@contract(G + "gmemoize", name=G + "gmemoize (other threads)", variants=["next", "start"])
def _(v, how):
    """another thread reads at any moment when it can"""
    runs, acts = [], [lambda p: None]
    s = v.source("item", "infinite")
    class It(SrcIter):
        def nxt(self, p): acts[0](p); return super().nxt(p)
    it = It(s.seq); s.value = it
    def body(p, a, kw): acts[0](p); runs.append(1); return it if len(runs) == 1 else v.source(f"item{len(runs)}", "infinite").value
    f = Fn(body, "gfunc"); f.params = []
    m = v.call(G + "gmemoize", f)
    got = {1: [], 2: []}
    def rd(r, j): got[j].append(v.total("read", lambda: py_next_or_raise(v, r)))
    if how == "next":
        r1, r2 = v.call(m), v.call(m)
        ahead = v.choose(3)
        for _ in range(ahead): rd(r2, 2)
        acts[0] = interfere(v, m, lambda: (rd(r2, 2), rd(r2, 2)))
    else:
        def other():
            q = v.total("reader", lambda: v.call(m)); rd(q, 2); rd(q, 2)
        acts[0] = interfere(v, m, other)
        r1 = v.total("reader", lambda: v.call(m))
    rd(r1, 1); rd(r1, 1); rd(r1, 1)
    v.c.on_table = v.c.x.on_acquire = None; acts[0] = lambda p: None
    for j in (1, 2):
        for k, x in enumerate(got[j]): v.same("the item at its own position", x, s.at(k))
    v.oblige("each item computed once", s.pos == max(len(got[1]), len(got[2]))); v.oblige("started once", z3.BoolVal(len(runs) == 1))

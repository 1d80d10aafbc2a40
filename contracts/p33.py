"""P33: popping and counting iterators and queue draining are exact."""
from spec import *
from lib import *
M = "unpythonic.misc:"
TRUSTED = ["list.pop(0), deque.popleft and Queue.get(block=False) as documented"]
ASSUMPTIONS = ["the container is changed by the consumer between two steps of the iteration in any way (the step is proved from every content)"]


def container(v, kind, name):
    n = z3.Int("len_" + name); v.assume(n >= 0)
    g = z3.Function(name, I, U)
    seq = SSeq(n, lambda i: SU(g(i)))
    return (DequeObj if kind == "deque" else ListObj)(seq), seq


@contract(M + "Popper", variants=["list", "deque"])
def _(v, kind):
    """one step of the iteration, from any content, and another one after any change of the content"""
    c, A = container(v, kind, "a")
    it = v.total("construct", lambda: v.call(M + "Popper", c))
    v.oblige("construction takes nothing", same_seq(c.seq, A))
    v.oblige("its own iterator", z3.BoolVal(py_iter(v.p, it) is it))
    before = dict(it.cells)
    def step(A, when):
        L = iz(slen(A))
        k, x = v.next(it)
        if k == "item":
            v.oblige("item only from a nonempty container" + when, L > 0)
            v.same("first item" + when, x, sat(A, z3.IntVal(0)))
            v.oblige("exactly the rest is left" + when, same_seq(c.seq, sslice(A, 1, None)))
        else:
            v.oblige("ends only when the container is empty" + when, L == 0)
            v.oblige("container stays empty" + when, iz(slen(c.seq)) == 0)
    step(A, "")
    v.aux("the iterator keeps no state of its own", z3.BoolVal(set(it.cells) == set(before) and all(it.cells[k] is before[k] for k in before)))
    _, Bs = container(v, kind, "b")
    c.set("c", Bs)
    step(Bs, " (after a change of the container)")
    step(c.seq, " (again)")


@contract(M + "Popper", name=M + "Popper (appending while iterating)", variants=["list", "deque"])
def _(v, kind):
    c, A = container(v, kind, "a")
    it = v.call(M + "Popper", c)
    x = v.obj("new")
    v.method(c, "append", x)
    k, y = v.next(it)
    v.oblige("not at the end", z3.BoolVal(k == "item"))
    v.same("order", y, SU(z3.If(iz(slen(A)) > 0, toU(sat(A, z3.IntVal(0))), x.t)))


@contract(M + "CountingIterator", variants=["iterator", "list", "iterable", "infinite"])
def _(v, kind):
    s = v.source("s", kind)
    it = v.total("construct", lambda: v.call(M + "CountingIterator", s.value))
    v.same("count starts at 0", v.p.getattr(it, "count"), 0)
    if s.pos is not None: v.oblige("construction takes nothing", s.pos == 0)
    def each(k):
        v.oblige("count of delivered items", iz(v.p.getattr(it, "count")) == k + 1)
        if s.pos is not None: v.oblige("one item taken per item delivered", s.pos == k + 1)
    v.stream("items", it, s.seq, at_yield=each, at_end=lambda k: v.oblige("final count", iz(v.p.getattr(it, "count")) == k))


@contract(M + "CountingIterator", name=M + "CountingIterator (source raises)")
def _(v):
    """a step from any state in which the source raises"""
    e = mkexc(ValueError)
    class Bad(Stream):
        def nxt(self, p): raise PyRaise(e)
    it = v.call(M + "CountingIterator", Bad())
    n = v.int("n", 0); v.p.setattr(it, "count", n)
    k, x = v.attempt(lambda: v.next(it))
    v.oblige("propagates", z3.BoolVal(k == "raise" and x is e)); v.same("not counted", v.p.getattr(it, "count"), n)


class Q(SimpleObj):
    """a queue holding the items of seq; nobody else takes from it"""
    def __init__(self, v, seq):
        super().__init__(pos=0)
        self.v, self.seq_ = v, seq
        v.c.sources.append((lambda i: sat(seq, i), (self.uid, "pos"))); v.c.bounds.append(seq.n)
    def m_get(self, p, block=True, timeout=None):
        import queue
        pos = iz(self.get("pos"))
        if p.c.branch(pos < self.seq_.n):
            self.set("pos", mki(pos + 1)); return sat(self.seq_, pos)
        if not (block is False or block == 0) and not timeout: self.v.oblige("never blocks", False)
        raise PyRaise(mkexc(queue.Empty))
    def m_get_nowait(self, p): return self.m_get(p, False)
    def m_empty(self, p): return mkb(iz(self.get("pos")) >= self.seq_.n)
    def m_qsize(self, p): return mki(self.seq_.n - iz(self.get("pos")))


@contract(M + "slurp")
def _(v):
    n = z3.Int("n"); v.assume(n >= 0); g = z3.Function("q", I, U)
    q = Q(v, SSeq(n, lambda i: SU(g(i))))
    r = v.total("slurp", lambda: v.call(M + "slurp", q))
    v.same("all items, in order", v.items(r), q.seq_)
    v.oblige("a list", z3.BoolVal(isinstance(r, ListObj)))
    v.oblige("left empty", iz(q.get("pos")) == n)


def chain(v, name="x"):
    """objects o(0), o(1), .. o(N): each but the last has the attribute, holding the next one"""
    c = v.c
    N = z3.Int("N"); c.assume(N >= 0); c.bounds.append(N)
    o, idx = z3.Function("obj", I, U), z3.Function("idx", U, I)
    c.recdef(lambda k: z3.Implies(k >= 0, idx(o(k)) == k)); c.index(z3.IntVal(0), N)
    c.hints.append(lambda i: SU(o(i)))
    g = HObj(k=0)              # the furthest object reached
    def ga(p, x, k):
        v.oblige("only this attribute is read", z3.BoolVal(k == name))
        i = z3.simplify(idx(x.t))
        c.index(i)
        v.oblige("an object of the chain", z3.And(i >= 0, i <= N, x.t == o(i)))
        if not p.c.branch(i < N): throw(AttributeError, k)
        c.index(i + 1)
        g.set("k", mki(zmax(g.get("k"), mki(i + 1))))
        return SU(o(i + 1))
    c.on_getattr = ga
    return N, o, idx


@contract(M + "getattrrec", variants=["plain", "default"])
def _(v, how):
    N, o, idx = chain(v)
    d = v.obj("dflt")
    old = v.c.on_getattr
    def ga(p, x, k):
        if v.c.valid(x.t == d.t)[0] == "yes": throw(AttributeError, k)
        v.assume(x.t != d.t)
        return old(p, x, k)
    v.c.on_getattr = ga
    v.c.recdef(lambda k: z3.Implies(k >= 0, o(k) != d.t))
    k, x = v.attempt(lambda: v.call(M + "getattrrec", SU(o(0)), "x", *([d] if how == "default" else [])))
    if k == "raise":
        v.exc_is("AttributeError", x, AttributeError); v.oblige("only if there is no such attribute at all", z3.And(N == 0, z3.BoolVal(how == "plain")))
    else: v.oblige("the innermost value", toU(x) == (z3.If(N == 0, d.t, o(N)) if how == "default" else o(N)))


@contract(M + "setattrrec")
def _(v):
    N, o, idx = chain(v)
    val = v.obj("val")
    done = []
    def sa(p, x, k, y):
        done.append(1)
        v.oblige("attribute and value", z3.BoolVal(k == "x")); v.same("value", y, val)
        v.oblige("on the innermost holder", x.t == o(z3.If(N == 0, z3.IntVal(0), N - 1)))
    v.c.on_setattr = sa
    v.c.index(N - 1)
    v.total("setattrrec", lambda: v.call(M + "setattrrec", SU(o(0)), "x", val))
    v.oblige("set once", z3.BoolVal(len(done) == 1))


@contract(M + "pack")
def _(v):
    s = v.source("s", "tuple")
    v.same("exactly the arguments", v.total("pack", lambda: md.call_symargs(v.p, v.get(M + "pack"), s.seq, {})), STuple(s.seq))
    a, b = v.obj("a"), v.obj("b")
    v.same("empty", v.call(M + "pack"), ()); v.same("two", v.call(M + "pack", a, b), (a, b))


@contract(M + "safeissubclass")
def _(v):
    T1, T2, t3 = v.obj("T1"), v.obj("T2"), v.obj("T3")
    v.oblige("as issubclass", v.truthy(v.total("call", lambda: v.call(M + "safeissubclass", T1, T2))) == md.issub(T1.t, T2.t))
    v.oblige("as issubclass (tuple)", v.truthy(v.total("call", lambda: v.call(M + "safeissubclass", T1, (T2, t3)))) == z3.Or(md.issub(T1.t, T2.t), md.issub(T1.t, t3.t)))
    v.same("not a class", v.total("call", lambda: v.call(M + "safeissubclass", 42, T2)), False)
    v.same("not a class", v.total("call", lambda: v.call(M + "safeissubclass", None, int)), False)
    v.same("a class", v.total("call", lambda: v.call(M + "safeissubclass", bool, int)), True)

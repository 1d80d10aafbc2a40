"""P07: lazy iterator functions consume only what their output needs."""
from spec import *
from lib import *
T, F = "unpythonic.it:", "unpythonic.fold:"
TRUSTED = ["itertools.islice, tee, chain, filterfalse, takewhile, zip_longest, starmap, collections.deque, zip, map, filter: modelled from their documentation, including how many items they take (pyvc/models.py, pyvc/prelude.py)"]
ASSUMPTIONS = ["inputs are infinite iterators producing items on demand; 'taken' counts the items the code has asked for"]


def lazy(v, s, r, spec, need, create=None):
    """creating took `create` items (z3 Int, or None: nothing); when output k appears, need(k) items were taken"""
    v.oblige("creating the result takes no item" if create is None else "creating the result takes only the initial fill", s.pos == (0 if create is None else create))
    v.stream("output", r, spec, at_yield=lambda k: v.oblige("items taken for the first outputs", s.pos <= need(k)))


INF = lambda f: SSeq(None, f, inf=True)


@contract(T + "take")
def _(v):
    n, s = v.int("n", 0), v.source("s", "infinite")
    r = v.call(T + "take", n, s.value)
    lazy(v, s, r, SSeq(n.t, s.at), lambda k: k + 1)


@contract(T + "take", name=T + "take (end)")
def _(v):
    """at the end no item beyond the n-th has been taken"""
    n, s = v.int("n", 0), v.source("s", "infinite")
    v.stream("output", v.call(T + "take", n, s.value), SSeq(n.t, s.at), at_end=lambda k: v.oblige("nothing beyond the n-th item is taken", s.pos <= n.t))


@contract(T + "drop")
def _(v):
    n, s = v.int("n", 0), v.source("s", "infinite")
    r = v.call(T + "drop", n, s.value)
    v.oblige("takes only what is dropped", s.pos <= n.t)
    v.stream("output", r, INF(lambda i: s.at(n.t + i)), at_yield=lambda k: v.oblige("items taken", s.pos <= n.t + k + 1))


@contract(T + "nth")
def _(v):
    n, s = v.int("n", 0), v.source("s", "infinite")
    r = v.call(T + "nth", n, s.value)
    v.same("n-th item", r, s.at(n.t)); v.oblige("takes no item beyond it", s.pos <= n.t + 1)


@contract(T + "split_at", variants=["first", "second"])
def _(v, which):
    n, s = v.int("n", 0), v.source("s", "infinite")
    r = v.call(T + "split_at", n, s.value)
    a, b = v.items(r).items
    v.oblige("creating the results takes at most the first part", s.pos <= n.t)
    if which == "first": v.stream("first part", a, SSeq(n.t, s.at), at_yield=lambda k: v.oblige("items taken", s.pos <= n.t))
    else: v.stream("second part", b, INF(lambda i: s.at(n.t + i)), at_yield=lambda k: v.oblige("items taken", s.pos <= n.t + k + 1))


@contract(T + "window", variants=[2, 3, 5])
def _(v, n):
    s = v.source("s", "infinite")
    r = v.call(T + "window", n, s.value)
    v.oblige("creating the result takes at most the first window", s.pos <= n)
    v.stream("output", r, INF(lambda i: tuple(s.at(i + j) for j in range(n))), at_yield=lambda k: v.oblige("items taken", s.pos <= k + n))


@contract(T + "window", name=T + "window (any length)")
def _(v):
    n, s = v.int("n", 2), v.source("s", "infinite")
    v.bound(n.t)
    r = v.call(T + "window", n, s.value)
    v.oblige("creating the result takes at most the first window", s.pos <= n.t)
    v.stream("output", r, INF(lambda i: STuple(SSeq(n.t, lambda j: s.at(i + j)))), at_yield=lambda k: v.oblige("items taken", s.pos <= k + n.t))


@contract(T + "chunked", variants=[2, 3])
def _(v, n):
    s = v.source("s", "infinite")
    v.hint(lambda i: mki(n * i))
    r = v.call(T + "chunked", n, s.value)
    v.oblige("creating the result takes no item", s.pos == 0)
    def chunk(i):
        def check(v_, name, x):
            v.oblige("a chunk takes no more than its items", s.pos <= n * (i + 1))
            for j in range(n):
                t, y = v.next(x)
                v.oblige(name + f"/item {j} of the chunk", z3.BoolVal(t == "item")); v.same(name + f"/item {j}", y, s.at(n * i + j))
            t, y = v.next(x); v.oblige(name + "/the chunk ends", z3.BoolVal(t == "end"))
            v.oblige("the end of a chunk takes nothing", s.pos == n * (i + 1))
        return Pred(check)
    v.stream("chunks", r, INF(chunk))


@contract(T + "butlastn")
def _(v):
    n, s = v.int("n", 0), v.source("s", "infinite")
    lazy(v, s, v.call(T + "butlastn", n, s.value), s.seq, lambda k: k + 1 + n.t)


@contract(T + "pad")
def _(v):
    n, s, x = v.int("n"), v.source("s", "infinite"), v.obj("fill")
    lazy(v, s, v.call(T + "pad", n, x, s.value), s.seq, lambda k: k + 1)


@contract(T + "scons")
def _(v):
    s, x = v.source("s", "infinite"), v.obj("x")
    lazy(v, s, v.call(T + "scons", x, s.value), INF(lambda i: ite(i == 0, x, s.at(i - 1))), lambda k: k)


@contract(T + "interleave", variants=[1, 2, 3])
def _(v, m):
    src = [v.source(f"s{j}", "infinite") for j in range(m)]
    v.hint(lambda i: mki(m * i))
    def at(i):
        x = toU(src[m - 1].at(i / m))
        for j in range(m - 2, -1, -1): x = z3.If(i % m == j, toU(src[j].at(i / m)), x)
        return SU(x)
    r = v.call(T + "interleave", *[q.value for q in src])
    for q in src: v.oblige("creating the result takes no item", q.pos == 0)
    v.stream("output", r, INF(at), at_yield=lambda k: [v.oblige(f"items taken from input {j}", q.pos <= k / m + z3.If(j <= k % m, 1, 0)) for j, q in enumerate(src)])


@contract(T + "map", variants=[(f, m) for f in ("map", "map_longest") for m in (1, 2)])
def _(v, var):
    f, m = var
    src = [v.source(f"s{j}", "infinite") for j in range(m)]
    fun = z3.Function("f", *([U] * m), U)
    g = HObj(k=0)
    def host(p, a, kw): g.set("k", mki(iz(g.get("k")) + 1)); return SU(fun(*[toU(x) for x in a]))
    r = v.call(T + f, Fn(host, "f"), *[q.value for q in src])
    for q in src: v.oblige("creating the result takes no item", q.pos == 0)
    def at(k):
        v.oblige("one call per output", iz(g.get("k")) == k + 1)
        for q in src: v.oblige("items taken", q.pos <= k + 1)
    v.stream("output", r, INF(lambda i: SU(fun(*[toU(q.at(i)) for q in src]))), at_yield=at)


@contract(F + "scanl")
def _(v):
    c = v.c
    s, init = v.source("s", "infinite"), v.obj("init")
    A, step = z3.Function("A", I, U), z3.Function("step", U, U, U)
    v.assume(A(0) == init.t); c.recdef(lambda i: z3.Implies(i >= 0, A(i + 1) == step(toU(s.at(i)), A(i)))); v.hint(lambda i: SU(A(i)))
    lazy(v, s, v.call(F + "scanl", Fn(lambda p, a, kw: SU(step(toU(a[0]), toU(a[1]))), "proc"), init, s.value), INF(lambda i: SU(A(i))), lambda k: k)


# ---- functions that skip items: output k is item number sel(k), and no item after it is taken
def selection(v, s, keep):
    c = v.c
    cnt, Fk = z3.Function("cnt", I, I), z3.Function("F", I, U)
    v.assume(cnt(0) == 0)
    c.recdef(lambda i: z3.Implies(i >= 0, z3.And(cnt(i + 1) == cnt(i) + z3.If(keep(i), 1, 0), z3.Implies(keep(i), Fk(cnt(i)) == toU(s.at(i))))))
    v.hint(lambda i: mki(cnt(i))); c.ikeeps.append(cnt)
    def at_yield(k):
        c.index(s.pos)
        v.oblige("nothing is taken beyond the item delivered", z3.And(s.pos >= 1, keep(s.pos - 1), cnt(s.pos) == k + 1))
    return SSeq(None, lambda k: SU(Fk(k)), inf=True), at_yield


@contract(T + "partition", variants=["false", "true"])
def _(v, which):
    s = v.source("s", "infinite")
    P = z3.Function("P", U, B)
    want, at = selection(v, s, lambda i: P(toU(s.at(i))) if which == "true" else z3.Not(P(toU(s.at(i)))))
    r = v.call(T + "partition", Fn(lambda p, a, kw: SBool(P(toU(a[0]))), "pred"), s.value)
    v.oblige("creating the results takes no item", s.pos == 0)
    a, b = v.items(r).items
    v.stream("output", b if which == "true" else a, want, at_yield=at)


@contract(T + "uniqify", variants=["plain", "key"])
def _(v, how):
    c = v.c; c.symsets = True
    s = v.source("s", "infinite")
    key = z3.Function("key", U, U)
    kf = (lambda i: key(toU(s.at(i)))) if how == "key" else (lambda i: toU(s.at(i)))
    S = z3.Function("S", I, z3.ArraySort(U, B))
    v.assume(S(0) == z3.K(U, z3.BoolVal(False)))
    c.recdef(lambda i: z3.Implies(i >= 0, S(i + 1) == z3.Store(S(i), kf(i), z3.BoolVal(True))))
    c.arrhints.append(lambda i: SArr(S(i)))
    want, at = selection(v, s, lambda i: z3.Not(z3.Select(S(i), kf(i))))
    r = v.call(T + "uniqify", s.value, **({"key": Fn(lambda p, a, kw: SU(key(toU(a[0]))), "key")} if how == "key" else {}))
    v.oblige("creating the result takes no item", s.pos == 0)
    v.stream("output", r, want, at_yield=at)


# ---- searches stop at the item found
def needle(v, pred, elem="U"):
    c = v.c
    s = v.source("s", "infinite", elem)
    w = z3.Int("w"); c.index(w); v.bound(w)
    v.assume(z3.And(0 <= w, pred(s, w)))
    c.recdef(lambda i: z3.Implies(z3.And(0 <= i, i < w), z3.Not(pred(s, i))))
    return s, w


@contract(T + "find")
def _(v):
    P = z3.Function("P", U, B)
    s, w = needle(v, lambda s, i: P(toU(s.at(i))))
    v.same("first match", v.total("call", lambda: v.call(T + "find", Fn(lambda p, a, kw: SBool(P(toU(a[0]))), "pred"), s.value)), s.at(w))
    v.oblige("takes no item beyond it", s.pos == w + 1)


@contract(T + "iindex")
def _(v):
    x = v.obj("x")
    s, w = needle(v, lambda s, i: md.eqU(toU(s.at(i)), x.t))
    v.same("first match", v.total("call", lambda: v.call(T + "iindex", x, s.value)), mki(w))
    v.oblige("takes no item beyond it", s.pos == w + 1)


@contract(T + "allsame")
def _(v):
    s, w = needle(v, lambda s, i: z3.Not(md.eqU(toU(s.at(i)), toU(s.at(0)))))
    v.assume(md.eqU(toU(s.at(0)), toU(s.at(0))))
    v.oblige("some differ", z3.Not(bz(v.total("call", lambda: v.call(T + "allsame", s.value)))))
    v.oblige("takes no item beyond the first different one", s.pos == w + 1)


@contract(T + "within")
def _(v):
    tol = v.int("tol", 0)
    def close(s, i): d = iz(s.at(i)) - iz(s.at(i + 1)); return z3.And(d <= tol.t, -d <= tol.t)
    s, w = needle(v, close, "int")
    r = v.total("call", lambda: v.call(T + "within", tol, s.value))
    v.stream("output", r, SSeq(w + 2, s.at), at_yield=lambda k: v.oblige("items taken", s.pos <= k + 2), at_end=lambda k: v.oblige("no item beyond the pair", s.pos <= w + 2))


@contract(T + "inn", variants=["up", "down"])
def _(v, d):
    c = v.c
    s = v.source("s", "infinite", "int"); x = v.int("x")
    at = lambda i: iz(s.at(i))
    past = (lambda i: at(i) > x.t) if d == "up" else (lambda i: at(i) < x.t)
    w = z3.Int("w"); c.index(w); v.bound(w)
    # nondecreasing, not constant from the start on; item w is the first that is beyond x or equal to it
    c.recdef(lambda i: z3.Implies(0 <= i, at(i) < at(i + 1) if d == "up" else at(i) > at(i + 1)))
    v.assume(z3.And(w >= 0, z3.Or(past(w), at(w) == x.t)))
    c.recdef(lambda i: z3.Implies(z3.And(0 <= i, i < w), z3.Not(z3.Or(past(i), at(i) == x.t))))
    r = v.total("call", lambda: v.call(T + "inn", x, s.value))
    v.oblige("answer", bz(r) == (at(w) == x.t))
    v.oblige("takes no item beyond the first that settles it (three at least)", s.pos <= z3.If(w + 1 < 3, 3, w + 1))


@contract(F + "unfold1")
def _(v):
    c = v.c
    st, val = z3.Function("state", I, U), z3.Function("value", I, U)
    v.hint(lambda i: SU(st(i)))
    g = HObj(k=0)
    def host(p, a, kw):
        k = iz(g.get("k")); c.index(k); g.set("k", mki(k + 1))
        v.oblige("the state of the step before", toU(a[0]) == st(k))
        return (SU(val(k)), SU(st(k + 1)))
    r = v.call(F + "unfold1", Fn(host, "proc"), SU(st(0)))
    v.oblige("creating the result makes no step", iz(g.get("k")) == 0)
    v.stream("output", r, INF(lambda i: SU(val(i))), at_yield=lambda k: v.oblige("one step per output", iz(g.get("k")) == k + 1))


@contract(F + "running_minmax")
def _(v):
    c = v.c
    s = v.source("s", "infinite", "int")
    lo, hi = z3.Function("lo", I, I), z3.Function("hi", I, I)
    x = lambda i: iz(s.at(i))
    v.assume(z3.And(lo(0) == x(0), hi(0) == x(0)))
    c.recdef(lambda i: z3.Implies(i >= 0, z3.And(lo(i + 1) == z3.If(x(i + 1) < lo(i), x(i + 1), lo(i)), hi(i + 1) == z3.If(x(i + 1) > hi(i), x(i + 1), hi(i)))))
    v.hint(lambda i: mki(lo(i))); v.hint(lambda i: mki(hi(i)))
    r = v.call(F + "running_minmax", s.value)
    v.oblige("creating the result takes at most the first item", s.pos <= 1)
    v.stream("output", r, INF(lambda i: (mki(lo(i)), mki(hi(i)))), at_yield=lambda k: v.oblige("items taken", s.pos <= k + 1))

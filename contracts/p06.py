"""P06: iterator transformations preserve, order and combine items as specified."""
from spec import *
from lib import *
T = "unpythonic.it:"
KINDS = ("iterator", "list", "iterable")
TRUSTED = ["itertools.islice, tee, chain, filterfalse, takewhile, groupby, zip_longest, starmap, collections.deque, zip, map, filter, reversed: modelled from their documentation (pyvc/models.py, pyvc/prelude.py)"]
ASSUMPTIONS = ["inputs behave as sequences: an item, once produced by the input, is not changed by other code meanwhile",
               "items compare by equality classes (== is an equivalence, compatible with hash)",
               "several inputs are proved for one to three of them"]


def mn(v, *ns):
    n = ns[0]
    for x in ns[1:]: n = z3.If(x < n, x, n)
    v.bound(n)
    return n


def mx(v, *ns):
    n = ns[0]
    for x in ns[1:]: n = z3.If(x > n, x, n)
    v.bound(n)
    return n


# ---- mapping and zipping, from the left or from the right
MAPS = [  # name, has a function, longest, each input reversed, result reversed
    ("map", True, False, False, False), ("map_longest", True, True, False, False), ("rmap", True, False, True, False), ("rzip", False, False, True, False),
    ("rmap_longest", True, True, True, False), ("rzip_longest", False, True, True, False), ("mapr", True, False, False, True), ("zipr", False, False, False, True),
    ("mapr_longest", True, True, False, True), ("zipr_longest", False, True, False, True)]

for f, hasf, longest, each, back in MAPS:
    @contract(T + f, variants=[(k, m) for k in KINDS for m in (1, 2)] + [("iterator", 3)])
    def _(v, var, f=f, hasf=hasf, longest=longest, each=each, back=back):
        kind, m = var
        c = v.c
        c.mins = longest
        src = [v.source(f"s{j}", kind if j == 0 else ("list", "iterator")[j % 2]) for j in range(m)]
        fill = v.obj("fill")
        n = (mx if longest else mn)(v, *[q.n for q in src])
        fun = z3.Function("f", *([U] * m), U)
        def at(i):
            if back: i = n - 1 - i
            it = [toU(q.at(q.n - 1 - i) if each else q.at(i)) for q in src]
            if longest: it = [z3.If(i < q.n, x, fill.t) for q, x in zip(src, it)]
            return SU(fun(*it)) if hasf else tuple(SU(x) for x in it)
        if back: v.hint(lambda i: at(n - 1 - i))
        def host(p, args, kw):
            v.oblige("one argument per input", z3.BoolVal(len(args) == m and not kw))
            return SU(fun(*[toU(a) for a in args]))
        a = ([Fn(host, "f")] if hasf else []) + [q.value for q in src]
        r = v.total("call", lambda: v.call(T + f, *a, **({"fillvalue": fill} if longest else {})))
        v.stream("items", r, SSeq(n, at))


@contract(T + "rev", variants=KINDS)
def _(v, kind):
    s = v.source("s", kind)
    v.stream("reversed", v.total("call", lambda: v.call(T + "rev", s.value)), SSeq(s.n, lambda i: s.at(s.n - 1 - i)))


@contract(T + "scons", variants=KINDS)
def _(v, kind):
    s, x = v.source("s", kind), v.obj("x")
    v.stream("prepended", v.total("call", lambda: v.call(T + "scons", x, s.value)), SSeq(s.n + 1, lambda i: ite(i == 0, x, s.at(i - 1))))


@contract(T + "pad", variants=KINDS)
def _(v, kind):
    s, x, n = v.source("s", kind), v.obj("fill"), v.int("n")
    N = mx(v, s.n, n.t)
    v.stream("padded", v.total("call", lambda: v.call(T + "pad", n, x, s.value)), SSeq(N, lambda i: ite(i < s.n, s.at(i), x)))


@contract(T + "window", variants=KINDS)
def _(v, kind):
    s, n = v.source("s", kind), v.int("n", 2)
    v.bound(n.t)
    r = v.total("call", lambda: v.call(T + "window", n, s.value))
    N = z3.If(s.n >= n.t, s.n - n.t + 1, 0)
    v.bound(N)
    v.stream("windows", r, SSeq(N, lambda i: STuple(SSeq(n.t, lambda j: s.at(i + j)))))


@contract(T + "window", name=T + "window (fixed length)", variants=[2, 3])
def _(v, n):
    s = v.source("s", "iterator")
    r = v.total("call", lambda: v.call(T + "window", n, s.value))
    N = z3.If(s.n >= n, s.n - n + 1, 0)
    v.bound(N)
    v.stream("windows", r, SSeq(N, lambda i: tuple(s.at(i + j) for j in range(n))))


for f in ("window", "chunked"):
    @contract(T + f, name=T + f + " (invalid length)")
    def _(v, f=f):
        n = v.int("n", hi=1)
        v.must_raise("too short", ValueError, lambda: v.call(T + f, n, v.source("s", "list").value))


@contract(T + "interleave", variants=[(k, m) for k in KINDS for m in (1, 2, 3)])
def _(v, var):
    kind, m = var
    src = [v.source(f"s{j}", kind if j == 0 else ("list", "iterator")[j % 2]) for j in range(m)]
    v.hint(lambda i: mki(m * i))
    N = mn(v, *[m * q.n + j for j, q in enumerate(src)])
    def at(i):
        t, q = i / m, i % m
        x = toU(src[m - 1].at(t))
        for j in range(m - 2, -1, -1): x = z3.If(q == j, toU(src[j].at(t)), x)
        return SU(x)
    r = v.total("call", lambda: v.call(T + "interleave", *[q.value for q in src]))
    v.stream("round robin until one input ends", r, SSeq(N, at))


# ---- iterating a function
@contract(T + "iterate1")
def _(v):
    c = v.c
    f, A = z3.Function("f", U, U), z3.Function("A", I, U)
    x = v.obj("x"); v.assume(A(0) == x.t)
    c.recdef(lambda i: z3.Implies(i >= 0, A(i + 1) == f(A(i)))); v.hint(lambda i: SU(A(i)))
    g = HObj(k=0)
    def host(p, a, kw):
        v.oblige("one argument", z3.BoolVal(len(a) == 1 and not kw)); g.set("k", mki(iz(g.get("k")) + 1))
        return SU(f(toU(a[0])))
    v.stream("x, f(x), f(f(x)), ...", v.total("call", lambda: v.call(T + "iterate1", Fn(host, "f"), x)), SSeq(None, lambda i: SU(A(i)), inf=True), at_yield=lambda k: v.oblige("lazily", iz(g.get("k")) == k))


@contract(T + "iterate", variants=[(a, b) for a in (0, 1, 2) for b in ((), ("x",))])
def _(v, var):
    m, names = var
    c = v.c
    v.call("unpythonic.lazyutil:_init_module"); v.call("unpythonic.funutil:_init_module")
    v.p.summaries["unpythonic.lazyutil:force"] = lambda p, a, kw: a[0]
    A = [z3.Function(f"A{j}", I, U) for j in range(m)]; K = {n: z3.Function(f"A_{n}", I, U) for n in names}
    for q in A + list(K.values()): v.hint(lambda i, q=q: SU(q(i)))
    mk = lambda k: v.call("unpythonic.funutil:Values", *[SU(q(k)) for q in A], **{n: SU(K[n](k)) for n in names})
    g = HObj(k=0)
    def host(p, a, kw):
        k = iz(g.get("k")); c.index(k)
        v.oblige("arguments", z3.BoolVal(len(a) == m and set(kw) == set(names)))
        for j in range(m): v.oblige(f"value {j}", toU(a[j]) == A[j](k))
        for n in names: v.oblige(f"value {n}", toU(kw[n]) == K[n](k))
        g.set("k", mki(k + 1))
        return mk(k + 1)
    def item(k):
        def check(v_, name, x):
            r, q = v.items(v.p.getattr(x, "rets")), v.p.getattr(x, "kwrets")
            v.oblige(name + "/number of values", z3.And(iz(slen(r)) == m))
            for j in range(m): v.same(name + f"/value {j}", sat(r, z3.IntVal(j)), SU(A[j](k)))
            for n in names: v.same(name + f"/value {n}", v.p.getitem(q, n), SU(K[n](k)))
            v.oblige("lazily", iz(g.get("k")) == k)
        return Pred(check)
    r = v.total("call", lambda: v.call(T + "iterate", Fn(host, "f"), *[SU(q(0)) for q in A], **{n: SU(K[n](0)) for n in names}))
    v.stream("x, f(x), f(f(x)), ...", r, SSeq(None, item, inf=True))


# ---- searching
def needle(v, kind, pred):
    """(source, w or None): either some item number w satisfies pred and none before it, or none does"""
    c = v.c
    s = v.source("s", kind)
    g = HObj(k=0)
    if v.choose(2):
        c.recdef(lambda i: z3.Implies(z3.And(0 <= i, i < s.n), z3.Not(pred(s, i))))
        c.index(s.n)
        return s, None
    w = z3.Int("w"); c.index(w)
    v.assume(z3.And(0 <= w, w < s.n, pred(s, w)))
    c.recdef(lambda i: z3.Implies(z3.And(0 <= i, i < w), z3.Not(pred(s, i)))); v.bound(w)
    return s, w


@contract(T + "iindex", variants=KINDS)
def _(v, kind):
    x = v.obj("x")
    s, w = needle(v, kind, lambda s, i: md.eqU(toU(s.at(i)), x.t))
    if w is None: v.must_raise("not there", ValueError, lambda: v.call(T + "iindex", x, s.value))
    else: v.same("index of the first equal item", v.total("call", lambda: v.call(T + "iindex", x, s.value)), mki(w))


@contract(T + "find", variants=KINDS)
def _(v, kind):
    P = z3.Function("P", U, B); d = v.obj("default")
    s, w = needle(v, kind, lambda s, i: P(toU(s.at(i))))
    r = v.total("call", lambda: v.call(T + "find", Fn(lambda p, a, kw: SBool(P(toU(a[0]))), "pred"), s.value, d))
    v.same("first match, else the default", r, d if w is None else s.at(w))


@contract(T + "allsame", variants=KINDS)
def _(v, kind):
    s, w = needle(v, kind, lambda s, i: z3.Not(md.eqU(toU(s.at(i)), toU(s.at(0)))))
    v.assume(md.eqU(toU(s.at(0)), toU(s.at(0))))
    r = v.total("call", lambda: v.call(T + "allsame", s.value))
    v.oblige("all equal to the first", bz(r) == z3.BoolVal(w is None))


# ---- selecting
def selection(v, s, keep):
    """the items at the indices where keep holds, in order"""
    c = v.c
    cnt, F = z3.Function("cnt", I, I), z3.Function("F", I, U)
    v.assume(cnt(0) == 0)
    fin = z3.BoolVal(True) if s.inf else None
    c.recdef(lambda i: z3.Implies(i >= 0, z3.And(cnt(i + 1) == cnt(i) + z3.If(keep(i), 1, 0), z3.Implies(keep(i), F(cnt(i)) == toU(s.at(i))), *([] if s.inf else [z3.Implies(i <= s.n, cnt(i) <= cnt(s.n))]))))   # (the last conjunct: by induction)
    v.hint(lambda i: mki(cnt(i))); c.ikeeps.append(cnt)
    if not s.inf: c.index(s.n)
    return SSeq(None, lambda k: SU(F(k)), inf=True) if s.inf else SSeq(cnt(s.n), lambda k: SU(F(k)))


@contract(T + "partition", variants=[(k, o) for k in KINDS for o in ("false", "true")])
def _(v, var):
    kind, which = var
    s = v.source("s", kind)
    P = z3.Function("P", U, B)
    keep = lambda i: P(toU(s.at(i))) if which == "true" else z3.Not(P(toU(s.at(i))))
    want = selection(v, s, keep)
    r = v.total("call", lambda: v.call(T + "partition", Fn(lambda p, a, kw: SBool(P(toU(a[0]))), "pred"), s.value))
    a, b = v.items(r).items
    if which == "true": v.stream("items that satisfy it", b, want)
    else: v.stream("items that do not", a, want)


@contract(T + "uniqify", variants=[(k, o) for k in KINDS for o in ("plain", "key")])
def _(v, var):
    kind, how = var
    c = v.c; c.symsets = True
    s = v.source("s", kind)
    key = z3.Function("key", U, U)
    kf = (lambda i: key(toU(s.at(i)))) if how == "key" else (lambda i: toU(s.at(i)))
    S = z3.Function("S", I, z3.ArraySort(U, B))
    v.assume(S(0) == z3.K(U, z3.BoolVal(False)))
    c.recdef(lambda i: z3.Implies(i >= 0, S(i + 1) == z3.Store(S(i), kf(i), z3.BoolVal(True))))
    c.arrhints.append(lambda i: SArr(S(i)))
    want = selection(v, s, lambda i: z3.Not(z3.Select(S(i), kf(i))))
    r = v.total("call", lambda: v.call(T + "uniqify", s.value, **({"key": Fn(lambda p, a, kw: SU(key(toU(a[0]))), "key")} if how == "key" else {})))
    v.stream("first of each", r, want)


# ---- chunks, each read to its end before the next one is asked for
@contract(T + "chunked", variants=[("iterator", 2), ("list", 3), ("iterable", 2)])
def _(v, var):
    kind, n = var
    c = v.c
    s = v.source("s", kind)
    v.hint(lambda i: mki(z3.If(n * i <= s.n, n * i, s.n)))
    N = (s.n + (n - 1)) / n
    v.bound(N)
    def chunk(i):
        def check(v_, name, x):
            lo = n * i
            for j in range(n):
                if v.case(lo + j < s.n):
                    t, y = v.next(x)
                    v.oblige(name + f"/item {j} of the chunk", z3.BoolVal(t == "item"))
                    v.same(name + f"/item {j} of the chunk", y, s.at(lo + j))
            t, y = v.next(x)
            v.oblige(name + "/the chunk ends", z3.BoolVal(t == "end"))
        return Pred(check)
    r = v.total("call", lambda: v.call(T + "chunked", n, s.value))
    v.stream("chunks", r, SSeq(N, chunk))


# ---- convergence
@contract(T + "within", variants=KINDS)
def _(v, kind):
    """up to and including the second item of the first pair whose difference is within the tolerance"""
    c = v.c
    s = v.source("s", kind, "int")
    tol = v.int("tol", 0)
    x = lambda i: iz(s.at(i))
    close = lambda i: z3.And(x(i) - x(i + 1) <= tol.t, x(i + 1) - x(i) <= tol.t)
    if v.choose(2):
        c.recdef(lambda i: z3.Implies(z3.And(0 <= i, i + 1 < s.n), z3.Not(close(i))))
        N = None
    else:
        w = z3.Int("w"); c.index(w); v.assume(z3.And(0 <= w, w + 1 < s.n, close(w)))
        c.recdef(lambda i: z3.Implies(z3.And(0 <= i, i < w), z3.Not(close(i)))); v.bound(w); N = w + 2
    r = v.total("call", lambda: v.call(T + "within", tol, s.value))
    if N is not None: v.stream("until two successive items are close", r, SSeq(N, s.at))
    else: v.stream("never close: all items but the last", r, SSeq(z3.If(s.n > 0, s.n - 1, 0), s.at))


# ---- membership in a monotonic input
@contract(T + "inn", variants=[(k, d) for k in KINDS for d in ("up", "down")])
def _(v, var):
    kind, d = var
    c = v.c
    s = v.source("s", kind, "int")
    x = v.int("x")
    le = (lambda a, b: a <= b) if d == "up" else (lambda a, b: a >= b)
    at = lambda i: iz(s.at(i))
    c.recdef(lambda i: z3.Implies(z3.And(0 <= i, i + 1 < s.n), le(at(i), at(i + 1))))
    if v.choose(2):
        w = z3.Int("w"); c.index(w)
        v.assume(z3.And(0 <= w, w < s.n, at(w) == x.t))
        c.recdef(lambda i: z3.And(z3.Implies(z3.And(0 <= i, i <= w), le(at(i), at(w))), z3.Implies(z3.And(w <= i, i < s.n), le(at(w), at(i)))))   # monotonic, by induction from the line above
        v.bound(w)
        r = v.total("call", lambda: v.call(T + "inn", x, s.value))
        v.oblige("an item of the input is found", bz(r))
    else:
        c.recdef(lambda i: z3.Implies(z3.And(0 <= i, i < s.n), at(i) != x.t))
        r = v.total("call", lambda: v.call(T + "inn", x, s.value))
        v.oblige("what is not in the input is not found", z3.Not(bz(r)))


@contract(T + "subset", variants=KINDS)
def _(v, kind):
    c = v.c; c.symsets = True
    W = z3.Const("whole", z3.ArraySort(U, B))
    whole = SetObj(()); whole.cells["m"] = SArr(W)
    s, w = needle(v, kind, lambda s, i: z3.Not(z3.Select(W, toU(s.at(i)))))
    r = v.total("call", lambda: v.call(T + "subset", s.value, whole))
    v.oblige("every item of the part is in the whole", bz(r) == z3.BoolVal(w is None))


# ---- flattening one level: any number of inner lists of any lengths
@contract(T + "flatten1", variants=["flatten1", "flatmap"])
def _(v, how):
    c = v.c
    off = z3.Function("off", I, I)
    n = v.int("n", 0).t; v.bound(n)
    v.assume(off(0) == 0)
    c.recdef(lambda i: z3.Implies(i >= 0, z3.And(off(i + 1) >= off(i), z3.Implies(i <= n, off(i) <= off(n)))))     # (the last conjunct: by induction)
    c.index(n)
    flat = z3.Function("flat", I, U)
    inner = lambda i: STuple(SSeq(off(i + 1) - off(i), lambda j: SU(flat(off(i) + j))))
    v.hint(lambda i: mki(off(i)))
    g = HObj(k=0)
    if how == "flatten1":
        src = SrcIter(SSeq(n, inner))
        r = v.total("call", lambda: v.call(T + "flatten1", src))
    else:
        s = v.source("s", "iterator"); v.assume(s.n == n)
        def host(p, a, kw):
            k = iz(g.get("k")); c.index(k)
            v.oblige("called with each item in order", z3.And(toU(a[0]) == toU(s.at(k)), k < n)); g.set("k", mki(k + 1))
            return inner(k)
        r = v.total("call", lambda: v.call(T + "flatmap", Fn(host, "f"), s.value))
    v.stream("items of the inner sequences, in order", r, SSeq(off(n), lambda k: SU(flat(k))))


# ---- flattening: items may be lists, tuples or anything else; the nested ones are flattened by the same contract
@contract(T + "_flatten", name=T + "flatten", variants=[(f, k, pr) for f in ("flatten", "flatten1") for k in ("iterator", "list") for pr in ("pred", "none") if (f, pr) != ("flatten1", "none")])
def _(v, var):
    f, kind, pr = var
    c = v.c
    p = v.p
    s = v.source("s", kind)
    P = z3.Function("P", U, B)
    ln = z3.Function("inner_len", I, I)
    off, flat, idx = z3.Function("off", I, I), z3.Function("flat", I, U), z3.Function("idx", U, I)
    isl = lambda x: bz(md.py_isinstance(p, SU(x), (list, tuple)))
    expand = lambda i: z3.And(isl(toU(s.at(i))), P(toU(s.at(i)))) if pr == "pred" else isl(toU(s.at(i)))
    v.assume(off(0) == 0)
    c.recdef(lambda i: z3.Implies(i >= 0, z3.And(idx(toU(s.at(i))) == i, ln(i) >= 0, off(i + 1) == off(i) + z3.If(expand(i), ln(i), 1), z3.Implies(z3.Not(expand(i)), flat(off(i)) == toU(s.at(i))), z3.Implies(i <= s.n, off(i) <= off(s.n)))))   # (the last conjunct: by induction)
    c.index(s.n); v.hint(lambda i: mki(off(i)))
    class Part(Stream):
        def __init__(self, lo, hi): super().__init__(pos=mki(lo)); self.hi = hi; Ctx.cur.bounds.append(hi)
        def nxt(self, p):
            pos = iz(self.get("pos"))
            if p.c.branch(pos < self.hi): self.set("pos", mki(pos + 1)); return SU(flat(pos))
            raise Stop
    def part(x):
        i = z3.simplify(idx(toU(x))); c.index(i)
        k = c.int("row"); v.assume(k == i)
        return Part(off(i), off(i + 1))
    pred = Fn(lambda p_, a, kw: SBool(P(toU(a[0]))), "pred")
    if f == "flatten":
        def rec(p_, a, kw):
            """the outermost call runs the code, nested ones use its contract"""
            fn = p.summaries.pop(T + "_flatten")
            if a[0] is s.value:
                try: return p.call(v.get(T + "_flatten"), list(a), kw)
                finally: p.summaries[T + "_flatten"] = fn
            p.summaries[T + "_flatten"] = fn
            given = list(a[1:]) + list(kw.values())
            v.oblige("nested lists are flattened by the same predicate", z3.BoolVal(pr == "none" or any(x is pred for x in given)))
            v.oblige("recursively", z3.BoolVal(not any(x is False for x in given)))
            return part(a[0])
        p.summaries[T + "_flatten"] = rec
    else: c.x.iter_ok = lambda p_, x: part(x)
    r = v.total("call", lambda: v.call(T + f, s.value, *([pred] if pr == "pred" else [])))
    v.stream("items, the nested ones expanded in place", r, SSeq(off(s.n), lambda k: SU(flat(k))))

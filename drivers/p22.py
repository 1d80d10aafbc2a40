from base import *
from unpythonic import dyn
from unpythonic.fun import (composel, composer, composel1, composer1, composel1i, composer1i, composeli, composeri, composelc, composerc, composelci, composerci,
                            to1st, to2nd, tokth, tolast, to, withself, notf, andf, orf, identity, const)
from unpythonic.seq import pipe, pipe1, pipec, piped, piped1, lazy_piped, lazy_piped1, exitpipe, begin, begin0, lazy_begin, lazy_begin0, do, do0, assign
from unpythonic.funutil import Values, call, callwith, valuify
D = Driver("P22")


class Stage:
    """Opaque stage: records its calls, gives back a term of what it got."""
    def __init__(self, k, log): self.k, self.log = k, log
    def __call__(self, *a, **kw):
        self.log.append((self.k, a, tuple(sorted(kw.items(), key=lambda t: t[0]))))
        return Term(self.k, a, kw)
    def __repr__(self): return f"S{self.k}"


class Term:
    def __init__(self, k, a, kw): self.k, self.a, self.kw = k, a, dict(kw)
    def __eq__(self, o): return isinstance(o, Term) and (self.k, self.a, self.kw) == (o.k, o.a, o.kw)
    def __hash__(self): return hash(self.k)
    def __repr__(self): return f"{self.k}({self.a},{self.kw})"


@D.case(300)
def compose1(r):
    n = r.randint(1, 8); log = []
    fs = [Stage(k, log) for k in range(n)]
    x = Item("x")
    want = x
    for f in fs: want = Term(f.k, (want,), {})
    for mkc, order in ((lambda: composel1(*fs), fs), (lambda: composel1i(mk(r, fs)), fs), (lambda: composer1(*fs[::-1]), fs), (lambda: composer1i(mk(r, fs[::-1])), fs),
                       (lambda: composel(*fs), fs), (lambda: composeli(mk(r, fs)), fs), (lambda: composer(*fs[::-1]), fs), (lambda: composeri(mk(r, fs[::-1])), fs),
                       (lambda: composelc(*fs), fs), (lambda: composelci(mk(r, fs)), fs), (lambda: composerc(*fs[::-1]), fs), (lambda: composerci(mk(r, fs[::-1])), fs)):
        del log[:]
        c = mkc(); eq(log, [], "a stage ran at composition time")
        eq(c(x), want, "composition", n=n); eq([l[0] for l in log], list(range(n)), "stages run once, in order")
        del log[:]; eq(c(x), want, "second use"); eq(len(log), n)
    for th in (lambda: pipe1(x, *fs), lambda: pipe(x, *fs), lambda: pipec(x, *fs), lambda: chain(piped1(x), fs), lambda: chain(piped(x), fs), lambda: chain(lazy_piped1(x), fs), lambda: chain(lazy_piped(x), fs)):
        del log[:]
        eq(th(), want, "pipe", n=n); eq([l[0] for l in log], list(range(n)), "stages run once, in order")
    eq(pipe1(x), x); eq(piped1(x) | exitpipe, x); eq(lazy_piped1(x) | exitpipe, x); eq(piped(x) | exitpipe, x); eq(lazy_piped(x) | exitpipe, x); eq(pipe(x), x)


def chain(p, fs):
    for f in fs: p = p | f
    return p | exitpipe


def vstage(r, k, log):
    """A stage with random arity of results: functions over positional and named values."""
    mode = r.randrange(5)
    tag = Item(("t", k))
    def st(*a, **kw):
        log.append(k)
        if mode == 0: return Term(k, a, kw)                                  # one value
        if mode == 1: return Values(*a, tag, **kw)                           # add one
        if mode == 2: return Values(*a[::-1], **{**kw, f"n{k}": tag})        # named
        if mode == 3: return Values(*(a[1:] if len(a) > 1 else a), **{n: v for i, (n, v) in enumerate(sorted(kw.items())) if i})
        return (a, tuple(sorted(kw.items(), key=lambda t: t[0])))           # a tuple is one value
    return st


def unpackvals(v):
    return (v.rets, dict(v.kwrets)) if isinstance(v, Values) else ((v,), {})


@D.case(500)
def multi(r):
    n = r.randint(1, 7); log = []
    fs = [vstage(r, k, log) for k in range(n)]
    a = tuple(items(r.randint(1, 3))); kw = {c: Item(c) for c in "uv"[:r.randint(0, 2)]}
    v = Values(*a, **kw)
    for f in fs:
        pa, pk = unpackvals(v); v = f(*pa, **pk)
    desc = dict(n=n, a=a, kw=kw)
    del log[:]
    def verify(th, what, lazy=False):
        del log[:]
        got = th(); eq(log, list(range(n)), "stages run once, in order", what=what, **desc)
        w = v
        if isinstance(w, Values) and not w.kwrets and len(w.rets) == 1 and what not in ("compose", "pipe0"): w = w.rets[0]
        if what == "pipe": pass
        check(eqvals(got, w), "result", what=what, got=got, want=w, **desc)
    verify(lambda: composel(*fs)(*a, **kw), "compose"); verify(lambda: composeli(mk(r, fs))(*a, **kw), "compose")
    verify(lambda: composer(*fs[::-1])(*a, **kw), "compose"); verify(lambda: composeri(mk(r, fs[::-1]))(*a, **kw), "compose")
    start = Values(*a, **kw)
    verify(lambda: pipe(start, *fs), "pipe"); verify(lambda: chain(piped(*a, **kw), fs), "piped"); verify(lambda: chain(lazy_piped(*a, **kw), fs), "lazy_piped")
    if not isinstance(v, Values): verify(lambda: pipec(start, *fs), "pipec"); verify(lambda: composelc(*fs)(*a, **kw), "compose"); verify(lambda: composerc(*fs[::-1])(*a, **kw), "compose")
    # composition is associative
    j = r.randint(1, n)
    if j < n: verify(lambda: composel(composel(*fs[:j]), composel(*fs[j:]))(*a, **kw), "compose"); verify(lambda: composer(composer(*fs[::-1][:n - j]), composer(*fs[::-1][n - j:]))(*a, **kw), "compose")


def eqvals(a, b):
    if isinstance(a, Values) != isinstance(b, Values): return False
    if isinstance(a, Values): return a.rets == b.rets and dict(a.kwrets) == dict(b.kwrets)
    return a is b or a == b


@D.case(500)
def objects(r):
    """Extending a pipe never changes the original; laziness."""
    log = []
    x = Item("x")
    for cls, lazy in ((piped1, False), (piped, False), (lazy_piped1, True), (lazy_piped, True)):
        pool = [(cls(x), [])]
        fs = [Stage(k, log) for k in range(8)]
        for _ in range(r.randint(3, 12)):
            p, hist = r.choice(pool)
            if r.random() < .5:
                f = r.choice(fs); del log[:]
                q = p | f
                eq(len(log), 0 if lazy else 1, "evaluation time", cls=cls.__name__)
                check(q is not p, "pipe modified in place"); pool.append((q, hist + [f]))
            else:
                del log[:]
                want = x
                for f in hist: want = Term(f.k, (want,), {})
                eq(p | exitpipe, want, "pipe object changed", cls=cls.__name__, hist=hist)
                eq([l[0] for l in log], [f.k for f in hist] if lazy else [], "evaluations at exit")
    # mutable initial value updated between construction and run of a lazy pipe
    lst = [1]; p = lazy_piped1(lst) | len; lst.append(2); eq(p | exitpipe, 2)
    lst = [1]; p = lazy_piped(lst, 5) | (lambda a, b: Values(len(a), b)) | (lambda a, b: a + b); lst.append(2); eq(p | exitpipe, 7)
    # exception in a stage propagates, later stages do not run
    ran = []
    def boom(_): raise KeyError("b")
    for th in (lambda: pipe(1, boom, ran.append), lambda: pipe1(1, boom, ran.append), lambda: piped(1) | boom | ran.append, lambda: lazy_piped(1) | boom | ran.append | exitpipe, lambda: composel(boom, ran.append)(1), lambda: composer1(ran.append, boom)(1)):
        raises(KeyError, th); eq(ran, [])


@D.case(500)
def curried_pipes(r):
    """Curried stages pass extra values through on the right."""
    log = []
    xs = items(r.randint(2, 5))
    n = r.randint(1, 4)
    ar = [r.randint(1, 2) for _ in range(n)]
    def mkst(k, m):
        if m == 1: return lambda a: (log.append(k), Term(k, (a,), {}))[1]
        return lambda a, b: (log.append(k), Term(k, (a, b), {}))[1]
    fs = [mkst(k, m) for k, m in enumerate(ar)]
    vals = list(xs)
    for k, m in enumerate(ar):
        if len(vals) < m: return 0
        vals = [Term(k, tuple(vals[:m]), {})] + vals[m:]
    want = vals[0] if len(vals) == 1 else Values(*vals)
    def run(th):
        del log[:]
        got = th(); check(eqvals(got, want), "curried stages", got=got, want=want, ar=ar); eq(log, list(range(n)))
    with dyn.let(curry_context=["test"]):
        run(lambda: pipec(Values(*xs), *fs)); run(lambda: composelc(*fs)(*xs)); run(lambda: composerc(*fs[::-1])(*xs))
    if len(vals) == 1: run(lambda: pipec(Values(*xs), *fs)); run(lambda: composelc(*fs)(*xs))
    eq(dyn.curry_context, [])


@D.case(800)
def adapters(r):
    n = r.randint(1, 5); a = tuple(items(n)); kw = {c: Item(c) for c in "uv"[:r.randint(0, 2)]}
    f = lambda x: Term("f", (x,), {})
    def upd(k): return Values(*[f(x) if i == k % n else x for i, x in enumerate(a)], **kw)
    k = r.randint(-n - 1, n + 1)
    if -n < k < n: check(eqvals(tokth(k, f)(*a, **kw), upd(k)), "tokth", k=k, n=n)
    elif k != -n: raises(IndexError, lambda: tokth(k, f)(*a, **kw))
    check(eqvals(to1st(f)(*a, **kw), upd(0)), "to1st")
    if n > 1: check(eqvals(to2nd(f)(*a, **kw), upd(1)), "to2nd"); check(eqvals(tolast(f)(*a, **kw), upd(n - 1)), "tolast")
    raises(TypeError, lambda: tokth(0, f)())
    specs = [(r.randint(1 - n, n - 1), Stage(i, [])) for i in range(r.randint(1, 4))]
    cur = list(a)
    for j, g in specs: cur[j % n] = Term(g.k, (cur[j % n],), {})
    check(eqvals(to(*specs)(*a, **kw), Values(*cur, **kw)), "to", specs=specs, n=n)
    # predicates
    calls = []
    fs = []
    outs = [r.choice([0, 1, "", "x", None, Item(9), []]) for _ in range(r.randint(0, 4))]
    for i, o in enumerate(outs): fs.append(lambda *A, i=i, o=o, **K: (calls.append((i, A, K)), o)[1])
    firstf = next((i for i, o in enumerate(outs) if not o), None); firstt = next((i for i, o in enumerate(outs) if o), None)
    got = andf(*fs)(*a, **kw)
    if not outs: check(got is True)
    elif firstf is None: same(got, outs[-1], "andf")
    else: check(not got, "andf")
    eq(calls, [(i, a, kw) for i in range(len(outs) if firstf is None else firstf + 1)], "andf evaluation"); del calls[:]
    got = orf(*fs)(*a, **kw)
    if firstt is None: check(not got, "orf")
    else: same(got, outs[firstt], "orf")
    eq(calls, [(i, a, kw) for i in range(len(outs) if firstt is None else firstt + 1)], "orf evaluation"); del calls[:]
    if fs: eq(notf(fs[0])(*a, **kw), not outs[0], "notf")
    # identity, const
    if kw or n > 1: check(eqvals(identity(*a, **kw), Values(*a, **kw))); check(eqvals(const(*a, **kw)(1, 2, z=3), Values(*a, **kw)))
    else: same(identity(*a), a[0]); same(const(*a)(1, q=2), a[0])
    same(identity(), None); same(const()(), None)
    # call, callwith, withself
    g = lambda *A, **K: (A, K)
    eq(call(g, *a, **kw), (a, kw)); eq(callwith(*a, **kw)(g), (a, kw)); h = withself(lambda self, *A, **K: (self, A, K)); eq(h(*a, **kw), (h, a, kw))
    # Values
    v = Values(*a, **kw)
    eq(v, Values(*a, **kw)); check(v != Values(*a, Item(0), **kw) and v != Values(*a, **{**kw, "q": 1}) and not (v == a)); eq(v.rets, a); eqv(v.kwrets, kw)
    same(v.ret, a[0]); i = r.randrange(n); same(v[i], a[i]); eq(v[i:], a[i:]); eq(set(v.keys()), set(kw)); eq(dict(v.items()), kw)
    for c in "uvw": eq(c in v, c in kw); same(v.get(c, 5), kw.get(c, 5))
    if kw: raises(ValueError, lambda: list(v)); same(v["u"], kw["u"]); raises(KeyError, lambda: v["w"])
    else: same_items(v, a)
    raises(TypeError, lambda: v[1.5])
    eq(valuify(lambda: a)(), Values(*a)); eq(valuify(lambda: list(a))(), list(a))


@D.case(500)
def sequencing(r):
    n = r.randint(1, 6); xs = items(n); log = []
    th = [lambda i=i: (log.append(i), xs[i])[1] for i in range(n)]
    same(begin(*xs), xs[-1]); same(begin0(*xs), xs[0]); same(begin(), None); same(begin0(), None)
    same(lazy_begin(*th), xs[-1]); eq(log, list(range(n))); del log[:]
    same(lazy_begin0(*th), xs[0]); eq(log, list(range(n))); del log[:]; same(lazy_begin(), None)
    # do: assignments visible to later items, in order
    model = {}
    its, want = [], []
    for i in range(n):
        k = r.choice("abc")
        if r.random() < .5:
            dep = r.choice(sorted(model)) if model and r.random() < .5 else None
            if dep is None: its.append(assign(**{k: (lambda e, i=i: (log.append(i), xs[i])[1])})); model[k] = xs[i]
            else: its.append(assign(**{k: (lambda e, i=i, dep=dep: (log.append(i), e[dep])[1])})); model[k] = model[dep]
            want.append(model[k])
        else:
            dep = r.choice(sorted(model)) if model else None
            its.append(lambda e, i=i, dep=dep: (log.append(i), e[dep] if dep else xs[i])[1]); want.append(model[dep] if dep else xs[i])
    same(do(*its), want[-1], "do"); eq(log, list(range(n)), "do order"); del log[:]
    same(do0(*its), want[0], "do0"); eq(log, list(range(n)), "do0 order")


@D.case(100)
def adapters2(r):
    n = r.randint(0, 4); kw = {k: Item(k) for k in r.sample("abc", r.randint(0, 3))}; xs = items(n); ret = Item("r")
    for v, w in ((ret, ret), ((1, 2), Values(1, 2)), ([1, 2], [1, 2]), ((), Values())):
        log = []
        def f(*a, **k): log.append((a, k)); return v
        out = valuify(f)(*xs, **kw)
        eq(len(log), 1); same_items(log[0][0], xs); check(log[0][1] == kw, "keyword arguments lost", got=log[0][1])
        check(out == w and type(out) is type(w), "result", got=out, want=w)


@D.case(100)
def promise_stages(r):
    """Values that are promises pass through pipes and sequences; stages that are promises are run all the same."""
    from unpythonic.lazyutil import Lazy
    v0 = r.randint(0, 9); k = r.randint(1, 4); log = []
    def stage(i):
        def f(x): log.append(i); return (x, i)
        return Lazy(lambda: f) if r.random() < .5 else f
    fs = [stage(i) for i in range(k)]
    want = v0
    for i in range(k): want = (want, i)
    for p in (pipe, pipe1, pipec): del log[:]; eq(p(v0, *fs), want, "pipe with promised stages"); eq(log, list(range(k)))
    x = Item("only")
    same(begin0(x), x); same(begin(x), x); same(lazy_begin(lambda: x), x); same(lazy_begin0(lambda: x), x)
    check(begin() is None and begin0() is None and lazy_begin() is None and lazy_begin0() is None)


if __name__ == "__main__":
    D.main()

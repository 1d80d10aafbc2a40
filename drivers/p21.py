from base import *
import functools, importlib
from p20 import gensig, mkf, render
from unpythonic import dyn
from unpythonic.fun import curry, iscurried, partial, apply, flip, rotate
from unpythonic.funutil import Values
D = Driver("P21")


class Log:
    def __init__(self): self.n = 0


def mkcounted(sig, log, ret):
    ps, va, ko, vk = sig
    names = [p[1] for p in ps] + [p[1] for p in ko]
    body = "{" + ", ".join(f"{n!r}: {n}" for n in names) + ("," if names else "") + ("'args': args, " if va else "") + ("'kw': kw" if vk else "") + "}"
    ns = {"log": log, "ret": ret}
    exec(f"def f({render(*sig)}):\n    log.n += 1\n    return ret({body})\n", ns)
    return ns["f"]


def fullcall(r, sig):
    """A valid call: args, kwargs in order."""
    ps, va, ko, vk = sig
    npo = len([p for p in ps if p[0] == "po"])
    k = r.randint(npo, len(ps))
    extra = [Item(("x", i)) for i in range(r.randint(0, 2))] if va and k == len(ps) else []
    args = [Item(p[1]) for p in ps[:k]] + extra
    kw = {p[1]: Item(p[1]) for p in ps[k:]}
    kw.update({p[1]: Item(p[1]) for p in ko})
    if vk and r.random() < .5: kw["zz"] = Item("zz")
    return args, kw


def groups(r, args, kw):
    """Split into steps: (args, kw) lists; positional order preserved."""
    n = r.randint(1, 5)
    cuts = sorted(r.randint(0, len(args)) for _ in range(n - 1))
    cuts = [0] + cuts + [len(args)]
    steps = [[list(args[cuts[i]:cuts[i + 1]]), {}] for i in range(n)]
    for k, v in kw.items(): steps[r.randrange(n)][1][k] = v
    return steps


def norm(d):
    return {k: (tuple(map(id, v)) if isinstance(v, tuple) else {a: id(b) for a, b in v.items()} if isinstance(v, dict) else v if isinstance(v, str) else id(v)) for k, v in d.items()}


@D.case(4000)
def grouping(r):
    """Required parameters only (no defaults): any grouping equals the ordinary call, once, and not before the last needed argument."""
    ps, va, ko, vk = gensig(r)
    if r.random() < .6:
        ps = [(k, n, False) for k, n, d in ps]; ko = [(k, n, False) for k, n, d in ko]
    sig = (ps, va, ko, vk)
    log = Log(); f = mkcounted(sig, log, lambda d: d)
    args, kw = fullcall(r, sig)
    want = norm(f(*args, **kw)); log.n = 0
    if any(d for _, _, d in ps + ko) or va or vk:
        # The call is made at the step that completes the required parameters: put everything optional there.
        # (positional order: everything positional after the last required one is in the same step)
        req = {n for k, n, d in ps + ko if not d}
        nreqpos = len([1 for (k, n, d), _ in zip(ps, args) if not d])
        first_a, first_k = args[:nreqpos], {k: v for k, v in kw.items() if k in req}
        steps = groups(r, first_a, first_k)
        while len(steps) > 1 and not steps[-1][0] and not steps[-1][1]: steps.pop()
        steps[-1][0].extend(args[nreqpos:]); steps[-1][1].update({k: v for k, v in kw.items() if k not in req})
        if not req: steps = [[args, kw]]
    else:
        steps = groups(r, args, kw)
        if not args and not kw: steps = [[[], {}]]
        else:
            while not steps[-1][0] and not steps[-1][1]: steps.pop()
    desc = dict(sig=render(*sig), steps=steps)
    if r.random() < .3 and (steps[0][0] or steps[0][1]) :
        g = curry(f, *steps[0][0], **steps[0][1]); rest = steps[1:]
    else:
        g = curry(f); rest = steps
    check(not rest or iscurried(g), "not curried", **desc)
    for i, (a, k) in enumerate(rest):
        eq(log.n, 0, "called before all arguments were there", **desc)
        before = g
        if r.random() < .2 and i + 1 < len(rest):
            g(*a, **k)     # using a step twice must not disturb it
        g = g(*a, **k)
    check(isinstance(g, dict), "no call made", got=g, **desc)
    eq(norm(g), want, "differs from the ordinary call", **desc); eq(log.n, 1, "number of calls", **desc)


@D.case(1500)
def passthrough(r):
    """Chains of functions returning functions; extras go to the results, whatever the grouping."""
    depth = r.randint(1, 4)
    log = []
    def build(level, acc):
        nreq = r.randint(1, 3) if level else r.randint(1, 3)
        ar[level:level] = [nreq] if len(ar) <= level else []
        names = ["p%d" % i for i in range(ar[level])]
        ns = {"level": level, "acc": acc, "build": build, "log": log, "depth": depth}
        exec(f"def fn({', '.join(names)}):\n    log.append(level)\n    a = acc + ({', '.join(names)},)\n    return build(level + 1, a) if level + 1 < depth else a\n", ns)
        return ns["fn"]
    ar = []
    for l in range(depth): ar.append(r.randint(1, 3))
    total = sum(ar)
    args = items(total)
    over = r.randint(0, 2) if r.random() < .4 else 0
    extra = [Item(("e", i)) for i in range(over)]
    allargs = args + extra
    # grouping; the last group has to contain the final needed argument and all extras
    n = r.randint(1, total)
    cuts = [0] + sorted(r.randint(0, total - 1) for _ in range(n - 1)) + [len(allargs)]
    g = curry(build(0, ()))
    def run():
        x = g
        for i in range(n): x = x(*allargs[cuts[i]:cuts[i + 1]])
        return x
    # curry of the intermediate results is only sustained when extra arguments were passed through
    def runc():
        x = g
        for i in range(n):
            a = allargs[cuts[i]:cuts[i + 1]]
            if not iscurried(x): x = curry(x)
            x = x(*a) if a or i == 0 else x
        return x
    desc = dict(arities=ar, cuts=cuts)
    got = outcome(runc)
    if over:
        if depth == 1: check(got[0] == "exc" and issubclass(got[1], TypeError), "leftover arguments at the top level not refused", got=got, **desc)
        del log[:]
        with dyn.let(curry_context=["x"]): v = runc()
        check(isinstance(v, Values), "leftover arguments not returned", got=v, **desc)
        same_items(v.rets[0], args, "result", **desc); same_items(v.rets[1:], extra, "leftovers", **desc); eq(dict(v.kwrets), {})
    else:
        check(got[0] == "ok", "failed", got=got, **desc)
        same_items(got[1], args, "result", **desc)
    eq(log, list(range(depth)), "each function called once", **desc)


@D.case(600)
def passthrough_kw(r):
    """Extra named arguments, and extra arguments given in an earlier step."""
    log = []
    def f(a, *, k):
        log.append(1)
        return lambda *x, **y: (a, k, x, y)
    A, K, X, Y = items(4)
    kw = {"k": K}
    pos = [A] + ([X] if r.random() < .6 else [])
    if r.random() < .5: kw["z"] = Y
    steps = groups(r, pos, kw)
    # the step that completes a and k must be the last nonempty one
    done_a = max(i for i, s in enumerate(steps) if A in s[0]); done_k = max(i for i, s in enumerate(steps) if "k" in s[1]); last = max(done_a, done_k)
    for s in steps[last + 1:]:
        steps[last][0].extend(s[0]); steps[last][1].update(s[1])
    steps = steps[:last + 1]
    g = curry(f)
    for a, k in steps: g = g(*a, **k)
    w = (A, K, tuple(pos[1:]), {k: v for k, v in kw.items() if k != "k"})
    if not w[2] and not w[3]:
        check(callable(g)); g = g()
    eq(g, w, "extra arguments", steps=steps); eq(log, [1])
    # Values returned
    def h(a): return Values(a, X, n=Y)
    with dyn.let(curry_context=["q"]): v = curry(h)(A, K)
    eq(v, Values(A, X, K, n=Y))
    raises(TypeError, lambda: curry(h)(A, K))
    def h2(a): return Values(lambda *q, **w: (q, w), X, n=Y)
    eq(curry(h2)(A, K, m=A), ((X, K), {"m": A, "n": Y}))


def annotated(r):
    types = [(int, lambda: r.randint(0, 9)), (str, lambda: "s%d" % r.randint(0, 9)), (float, lambda: r.random()), (list, lambda: [1])]
    n = r.randint(2, 4)
    ts = [r.choice(types) for _ in range(n)]
    ns = {}
    src = "def f(%s):\n    return (%s,)\n" % (", ".join(f"p{i}: {t[0].__name__}" for i, t in enumerate(ts)), ", ".join(f"p{i}" for i in range(n)))
    import linecache
    fn = f"<p21-{id(ns)}-{r.random()}>"
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    exec(compile(src, fn, "exec"), ns)
    return ns["f"], ts


@D.case(600)
def typechecked(r):
    f, ts = annotated(r)
    n = len(ts)
    args = [t[1]() for t in ts]
    bad = r.randrange(n) if r.random() < .5 else None
    if bad is not None: args[bad] = object()
    g = curry(f)
    pos = 0
    byname = r.random() < .3
    while pos < n:
        m = r.randint(1, n - pos) if r.random() < .7 else 1
        a = args[pos:pos + m]
        thunk = (lambda: g(**{f"p{pos + i}": v for i, v in enumerate(a)})) if byname else (lambda: g(*a))
        if pos + m < n and bad is not None and pos <= bad < pos + m:
            raises(TypeError, thunk, "ill-typed argument accepted", args=args, bad=bad, types=[t[0] for t in ts]); return
        g = thunk(); pos += m
    eq(g, tuple(args), "annotated function", args=args)


@D.case(1500)
def partials(r):
    if r.random() < .5:
        sig = gensig(r); log = Log(); f = mkcounted(sig, log, lambda d: d)
    else:
        log = Log()
        def f(*args, **kw):
            log.n += 1; return {"args": args, "kw": kw}
        sig = ([], True, [], True)
    args, kw = fullcall(r, sig)
    steps = groups(r, args, kw)
    g = f
    kws = {}
    for a, k in steps[:-1]:
        if r.random() < .3 and k: k = {**k, **{n: Item("old") for n in list(k)}}    # overridden below
        g0 = g; g = partial(g, *a, **k)
        eq(log.n, 0, "partial called the function")
    lasta, lastk = steps[-1]
    over = {k: v for a, kk in steps[:-1] for k, v in kk.items()}
    got = g(*lasta, **{**over, **lastk})
    eq(norm(got), norm(f(*args, **kw)), "partial application differs from the merged call", sig=render(*sig), steps=steps)
    f2, ts = annotated(r)
    vals = [t[1]() for t in ts]
    p = f2
    for v in vals[:-1]: p = partial(p, v)
    eq(p(vals[-1]), tuple(vals)); raises(TypeError, lambda: partial(p, object()))


@D.case(500)
def adapters(r):
    n = r.randint(1, 6); args = items(n); kw = {k: Item(k) for k in "xyz"[:r.randint(0, 3)]}
    def f(*a, **k): return (a, k)
    eq(flip(f)(*args, **kw), (tuple(reversed(args)), kw), "flip")
    eq(flip(flip(f))(*args, **kw), (tuple(args), kw), "flip twice")
    k = r.randint(-n - 2, n + 2)
    if -n < k < n:
        eq(rotate(k)(f)(*args, **kw), (tuple(args[k:] + args[:k]), kw), "rotate", k=k, n=n)
        eq(rotate(-k)(rotate(k)(f))(*args, **kw), (tuple(args), kw), "rotate inverse", k=k)
    else: raises(IndexError, lambda: rotate(k)(f)(*args), "rotate out of range")
    raises(TypeError, lambda: rotate(0)(f)())
    j = r.randint(0, n)
    eq(apply(f, *args[:j], mk(r, args[j:]), **kw), (tuple(args), kw), "apply", j=j)
    # non-callables, curried twice
    same(curry(42), 42); g = curry(lambda a, b: (a, b)); same(curry(g), g); eq(curry(g)(1)(2), (1, 2)); eq(curry(g, 1)(2), (1, 2)); eq(curry(g, 1, 2), (1, 2))
    check(iscurried(g) and not iscurried(f)); check(iscurried(g(1)))
    eq(curry(lambda *a: a)(), ()); eq(curry(lambda: 7)(), 7); e = items(2); eq(curry(curry(lambda a: lambda b, c: (a, b, c)))(1, 2)(3), (1, 2, 3))


@D.case(300)
def kinds(r):
    """Callables of every kind."""
    A, B, C_ = items(3)
    class K:
        def __call__(self, a, b, c): return (a, b, c)
        def m(self, a, b, c): return (a, b, c)
        @classmethod
        def c(cls, a, b, c): return (a, b, c)
        @staticmethod
        def s(a, b, c): return (a, b, c)
    class I:
        def __init__(self, a, b, c): self.v = (a, b, c)
    for f in (K(), K().m, K.c, K.s, I, lambda a, b, c: (a, b, c), functools.partial(lambda z, a, b, c: (a, b, c), 0)):
        steps = groups(r, [A, B, C_], {}); steps = [s for s in steps if s[0]]
        if r.random() < .3: steps = [[[], {"b": B}], [[A], {}], [[], {"c": C_}]]
        g = curry(f)
        for a, k in steps: g = g(*a, **k)
        eq(getattr(g, "v", g), (A, B, C_), "callable kind", f=f, steps=steps)
    def boom(a, b): raise KeyError(a)
    raises(KeyError, lambda: curry(boom)(1)(2)); eq(dyn.curry_context, [], "context not restored")
    raises(TypeError, lambda: curry(lambda a, b: a)(1)(2, a=3), "multiple values")


if __name__ == "__main__":
    D.main()

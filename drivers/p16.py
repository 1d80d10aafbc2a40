from base import *
from unpythonic import trampolined, jump, looped, looped_over, breakably_looped, breakably_looped_over, withself
import io, contextlib
D = Driver("P16")


def depth():
    f = sys._getframe(); n = 0
    while f: n += 1; f = f.f_back
    return n


@D.case(300)
def jump_graphs(r):
    """Random jump machine over k functions: plain recursion (interpreted iteratively) is the specification."""
    k = r.randint(1, 4)
    steps = r.randint(0, 60)
    plan = []          # for each step: (target index, style)
    for _ in range(steps):
        plan.append((r.randrange(k), r.choice(["pos", "kw", "mix", "jumpraw"])))
    ret = r.choice([Item("ret"), None, 0, [], "s", (lambda: 1)])
    seen = []
    fs = []
    def make(i, deco):
        def f(pos, a, *rest, k1=None, **kw):
            seen.append((i, pos, a, rest, k1, tuple(sorted(kw.items()))))
            depths.add(depth())
            if pos == steps: return ret
            tgt, style = plan[pos]
            t = fs[tgt]
            if style == "pos": return jump(t, pos + 1, "a%d" % pos, 1, 2)
            if style == "kw": return jump(t, pos=pos + 1, a="a%d" % pos, k1=pos)
            if style == "mix": return jump(t, pos + 1, "a%d" % pos, k1=pos, z=3, y=4)
            return jump(raw[tgt], pos + 1, "a%d" % pos, "raw")
        return f
    depths = set()
    raw = [make(i, None) for i in range(k)]
    fs.extend(trampolined(f) for f in raw)
    start = r.randrange(k)
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        got = fs[start](0, "init")
    same(got, ret, "trampolined call returned something else")
    want = [(start, 0, "init", (), None, ())]
    for pos, (tgt, style) in enumerate(plan):
        a = "a%d" % pos
        want.append({"pos": (tgt, pos + 1, a, (1, 2), None, ()), "kw": (tgt, pos + 1, a, (), pos, ()), "mix": (tgt, pos + 1, a, (), pos, (("y", 4), ("z", 3))), "jumpraw": (tgt, pos + 1, a, ("raw",), None, ())}[style])
    eq(seen, want, "jump targets/arguments differ")
    check(max(depths) - min(depths) <= 1, "call stack grows with jumps", depths=depths)


@D.case(3)
def long_chains(r):
    n = 30000
    @trampolined
    def ev(x): return True if x == 0 else jump(od, x - 1)
    @trampolined
    def od(x): return False if x == 0 else jump(ev, x - 1)
    eq(ev(n), True); eq(ev(n + 1), False)
    @trampolined
    def fact(x, acc=1): return acc if x == 0 else jump(fact, x - 1, acc * x % 1000003)
    w = 1
    for i in range(1, n + 1): w = w * i % 1000003
    eq(fact(n), w)
    @looped
    def s(loop, acc=0, i=0): return acc if i == n else loop(acc + i, i + 1)
    eq(s, n * (n - 1) // 2)
    @looped_over(range(n), acc=0)
    def s(loop, x, acc): return loop(acc + x)
    eq(s, n * (n - 1) // 2)
    @breakably_looped_over(range(10 ** 9), acc=0)
    def s(loop, x, acc, cnt, brk):
        if x == n: return brk(acc)
        return loop(acc + x)
    eq(s, n * (n - 1) // 2)


@D.case(50)
def errors_and_nesting(r):
    @trampolined
    def f(): return jump(42)
    raises(RuntimeError, f, "jump into a non-callable")
    class E(Exception): pass
    @trampolined
    def g(n):
        if n == 0: raise E
        return jump(g, n - 1)
    raises(E, lambda: g(5))
    # plain (non-tail) calls to trampolined functions run to completion
    @trampolined
    def sq(x): return jump(lambda y: y * y, x)
    @trampolined
    def h(n, acc): return acc if n == 0 else jump(h, n - 1, acc + sq(n))
    eq(h(5, 0), 55)
    # several values / non-jump objects pass through
    for v in ([], None, False, (jump,), Item(1), NotImplemented):
        @trampolined
        def c(): return v
        same(c(), v)
    @trampolined
    @withself
    def fac(self, n, acc=1): return acc if n == 0 else jump(self, n - 1, acc * n)
    eq(fac(5), 120)
    class K:
        @trampolined
        def m(self, n): return self if n == 0 else jump(self.m, n - 1)
    k = K(); same(k.m(3), k)
    class Callable:
        def __call__(self, *a): return ("called", a)
    @trampolined
    def t(): return jump(Callable(), 1, 2)
    eq(t(), ("called", (1, 2)))


@D.case(300)
def loops(r):
    n = r.randint(0, 8)
    # looped: state given explicitly each time, defaults first
    trace = []
    @looped
    def out(loop, a=0, b="init", *, k=None):
        trace.append((a, b, k))
        if a >= n: return (a, b)
        return loop(a + 1, ("b", a), k=a) if a % 2 == 0 else loop(b=("b", a), a=a + 1)
    want = [(0, "init", None)] + [(i + 1, ("b", i), i if i % 2 == 0 else None) for i in range(n)]
    eq(trace, want, "looped trace"); eq(out, want[-1][:2])
    # looped_over
    xs = items(n); src = mk(r, xs)
    tr = []
    stop = r.choice([None, None, r.randint(0, n)])
    skip = set(r.sample(range(n), r.randint(0, n))) if n else set()
    a0 = Item("acc0")
    @looped_over(src, acc=a0)
    def out(loop, x, acc):
        tr.append((x, acc))
        i = x.n
        if stop == i: return ("early", acc)
        if i in skip: return loop()
        return loop((acc, i))
    acc = a0; w = []; ret = None; early = False
    for i in range(n):
        w.append((xs[i], acc))
        if stop == i: ret = ("early", acc); early = True; break
        if i not in skip: acc = (acc, i)
    if not early: ret = acc
    eq(len(tr), len(w), "number of iterations"); 
    for (x, a), (y, b) in zip(tr, w): check(x is y and a == b, "item or accumulator differs", got=tr, want=w)
    check(out == ret, "result", got=out, want=ret)
    # extra loop variables
    @looped_over(range(n), acc=0)
    def out(loop, x, acc, extra="e0", *, kw="k0"):
        check((extra, kw) == (("e0", "k0") if x == 0 else (x - 1, x - 1)), "extra loop variables", extra=extra, x=x)
        return loop(acc + x, x, kw=x)
    eq(out, sum(range(n)))
    # breakable
    tr = []
    cont = set(r.sample(range(n), r.randint(0, n))) if n else set()
    @breakably_looped_over(mk(r, xs), acc=a0)
    def out(loop, x, acc, cnt, brk):
        tr.append((x, acc)); i = x.n
        if stop == i:
            def deep(k): return brk(("broken", acc)) if k == 0 else deep(k - 1)
            return deep(3)
        if i in cont: return cnt()
        return loop((acc, i))
    acc = a0; w = []; ret = None; broke = False
    for i in range(n):
        w.append((xs[i], acc))
        if stop == i: ret = ("broken", acc); broke = True; break
        if i not in cont: acc = (acc, i)
    if not broke: ret = acc
    check(len(tr) == len(w) and all(x is y and a == b for (x, a), (y, b) in zip(tr, w)), "breakable loop trace", got=tr, want=w); check(out == ret, "breakable loop result", got=out, want=ret)
    @breakably_looped
    def out(loop, brk, i=0):
        if i == n: brk(("brk", i))
        return loop(i + 1)
    eq(out, ("brk", n))
    @breakably_looped
    def out(loop, brk, i=0): return ("ret", i) if i == n else loop(i + 1)
    eq(out, ("ret", n))
    raises(ValueError, lambda: looped(lambda: 1)); raises(ValueError, lambda: looped_over([1])(lambda loop: 1))
    raises(ValueError, lambda: breakably_looped(lambda a: 1)); raises(ValueError, lambda: breakably_looped_over([1])(lambda a, b, c: 1))


@D.case(100)
def lazy_consumption(r):
    n = r.randint(1, 6); k = r.randint(1, n)
    src = Src(items(n))
    @looped_over(src, acc=None)
    def out(loop, x, acc):
        eq(src.pulled, x.n + 1, "loop over an iterable consumed ahead")
        return x if x.n == k - 1 else loop(x)
    eq(out.n, k - 1); eq(src.pulled, k)
    # nested loops
    @looped_over(range(n), acc=())
    def out(outer, i, acc):
        @looped_over(range(i), acc=0)
        def inner(loop, j, a): return loop(a + j)
        return outer(acc + (inner,))
    eq(out, tuple(sum(range(i)) for i in range(n)))


@D.case(100)
def extra_args(r):
    """Loop variables beyond the accumulator reach the body, whichever their number."""
    n = r.randint(1, 6); k = r.randint(0, 3); xs = items(n)
    seen = []
    def nextargs(i): return tuple((i, j) for j in range(k))
    @looped_over(xs, acc=0)
    def out(loop, x, acc, *extra):
        seen.append((x, acc, extra)); return loop(acc + 1, *nextargs(x.n))
    eq(seen, [(x, i, nextargs(i - 1) if i else ()) for i, x in enumerate(xs)], "loop variables"); eq(out, n)
    del seen[:]
    @breakably_looped_over(xs, acc=0)
    def out(loop, x, acc, cnt, brk, *extra, kw=None):
        seen.append((x, acc, extra, kw)); return loop(acc + 1, *nextargs(x.n), kw=x.n)
    eq(seen, [(x, i, nextargs(i - 1) if i else (), i - 1 if i else None) for i, x in enumerate(xs)], "loop variables"); eq(out, n)
    skip = set(r.sample(range(n), r.randint(0, n))); stop = r.choice([None, r.randrange(n)]); del seen[:]
    @breakably_looped_over(xs, acc=0)
    def out(loop, x, acc, cnt, brk):
        seen.append((x.n, acc))
        if x.n == stop: return brk(("brk", acc))
        return cnt() if x.n in skip else loop(acc + 1)
    acc = 0; w = []; res = None
    for i in range(n):
        w.append((i, acc))
        if i == stop: res = ("brk", acc); break
        if i not in skip: acc += 1
    eq(seen, w, "continue keeps the accumulator"); eq(out, acc if res is None else res)


@D.case(150)
def lazy_trampoline(r):
    """The trampoline built inside lazify: same results; strict targets get forced arguments, lazy ones get them as given."""
    from unpythonic import dyn
    from unpythonic.lazyutil import Lazy, passthrough_lazy_args, islazy
    with dyn.let(_build_lazy_trampoline=True):
        n = r.randint(0, 12); plan = [(r.randrange(3), r.random() < .5) for _ in range(n)]; runs = []; log = []; ret = Item("ret")
        def promise(i):
            def thunk(): runs.append(i); return ("v", i)
            return Lazy(thunk)
        lazyf = [r.random() < .4 for _ in range(3)]
        fs = []
        def mkf(i):
            def f(pos, x=None, *, k=None):
                pos = pos
                log.append((i, pos, x, k))
                if pos == n: return ret
                g, kw = plan[pos]; p = promise(pos); given.append(p)
                return jump(fs[g], pos + 1, k=p) if kw else jump(fs[g], pos + 1, p)
            f = passthrough_lazy_args(f) if lazyf[i] else f
            g = trampolined(f); check(islazy(g) == lazyf[i], "lazy mark of the trampolined function"); return g
        given = []
        for i in range(3): fs.append(mkf(i))
        s = r.randrange(3)
        same(fs[s](0), ret, "result"); cur = s
        for pos, (i, p, x, k) in enumerate(log):
            eq((i, p), (cur, pos), "order of jumps")
            if pos:
                g, kw = plan[pos - 1]; got = k if kw else x
                if lazyf[i]: same(got, given[pos - 1], "lazy target: promise passed as is")
                else: eq(got, ("v", pos - 1), "strict target: forced argument")
            if pos < n: cur = plan[pos][0]
        eq(len(log), n + 1)
        @trampolined
        def bad(): return jump(42)
        raises(RuntimeError, bad, "jump into a non-callable")
        for v in (None, 0, [], Item(1)):
            @trampolined
            def c(): return v
            same(c(), v)
        eq(trampolined(42), 42)
        depths = set()
        @trampolined
        def deep(k): depths.add(depth()); return k if k == 2000 else jump(deep, k + 1)
        eq(deep(0), 2000); check(max(depths) - min(depths) <= 1, "call stack grows")
    eq(trampolined(42), 42)


if __name__ == "__main__":
    D.main()

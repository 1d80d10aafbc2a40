from base import *
from unpythonic import memoize, box, Some, cons, ll, llist, frozendict, Values
from unpythonic.lazyutil import Lazy, force, force1, maybe_force_args
import collections
D = Driver("P10")


class Boom(Exception):
    pass


def styles(r, names, vals, npos_only, defaults):
    """All ways to split into positional prefix / keywords in random order, leaving out defaults at will."""
    k = r.randint(npos_only, len(names))
    args = list(vals[:k])
    rest = [(n, v) for n, v in zip(names[k:], vals[k:])]
    r.shuffle(rest)
    kw = {n: v for n, v in rest if not (n in defaults and defaults[n] == v and r.random() < .5)}
    return args, kw


@D.case(300)
def memo_by_binding(r):
    """Model: a dict from canonical binding (computed by the called body itself) to outcome."""
    runs = []
    outs = {}
    def core(key):
        runs.append(key)
        if hash(repr(key)) % 3 == 0:
            outs[key] = ("exc", Boom(key)); raise outs[key][1]
        outs[key] = ("ok", r.choice([Item(key), None, [], 0])); return outs[key][1]
    kind = r.randrange(4)
    if kind == 0:
        @memoize
        def f(a, b=2, c=3):
            return core((a, b, c))
        names, npos, dfl = ["a", "b", "c"], 0, dict(b=2, c=3)
    elif kind == 1:
        @memoize
        def f(a, /, b=2, *, c=3):
            return core((a, b, c))
        names, npos, dfl = ["a", "b", "c"], 1, dict(b=2, c=3)
    elif kind == 2:
        @memoize
        def f(*args, **kw):
            return core((args, tuple(sorted(kw.items()))))
    else:
        @memoize
        def f(a, *rest, c=3, **kw):
            return core((a, rest, c, tuple(sorted(kw.items()))))
    hist = []
    seen = set()
    for _ in range(r.randint(1, 25)):
        V = lambda: r.choice([1, 2, 3, "x", None])
        if kind in (0, 1):
            vals = [V(), V(), V()]
            args, kw = styles(r, names, vals, npos, dfl)
            if kind == 1 and len(args) == 3:
                kw = {"c": args.pop()}
            full = dict(zip(names, args)); full.update(kw)
            key = tuple(full.get(n, dfl.get(n)) for n in names)
        elif kind == 2:
            args = [V() for _ in range(r.randint(0, 2))]
            ks = r.sample(["x", "y", "z"], r.randint(0, 3)); kw = {k: V() for k in ks}
            key = (tuple(args), tuple(sorted(kw.items())))
        else:
            args = [V() for _ in range(r.randint(1, 3))]
            ks = r.sample(["x", "y", "c"], r.randint(0, 3)); kw = {k: V() for k in ks}
            key = (args[0], tuple(args[1:]), kw.get("c", 3), tuple(sorted((k, v) for k, v in kw.items() if k != "c")))
        hist.append((args, kw))
        n0 = len(runs)
        got = outcome(lambda: f(*args, **kw))
        if key in seen:
            check(len(runs) == n0, "body ran again for the same binding", hist=hist, key=key)
        else:
            check(runs[n0:] == [key], "body did not run exactly once for a new binding", hist=hist, key=key, runs=runs[n0:])
        seen.add(key)
        want = outs[key]
        if want[0] == "ok":
            check(got[0] == "ok" and got[1] is want[1], "not the identical result object", got=got, want=want, hist=hist)
        else:
            check(got[0] == "exc" and got[2] is want[1], "not the identical exception", got=got, want=want, hist=hist)


@D.case(60)
def memo_threads(r):
    runs = []
    gate = threading.Event()
    n = 5
    mode = r.choice(["ok", "exc"])
    @memoize
    def f(x):
        runs.append(x)
        time.sleep(.001)
        if mode == "exc":
            raise Boom(x)
        return Item(x)
    b = threading.Barrier(n)
    def call(i):
        b.wait(10)
        try:
            return f(x=i % 2) if i % 3 == 0 else f(i % 2)
        except Boom as e:
            return e
    old = sys.getswitchinterval(); sys.setswitchinterval(1e-6)
    try:
        res = run_threads([(lambda i=i: call(i)) for i in range(n)])
    finally:
        sys.setswitchinterval(old)
    eq(sorted(runs), [0, 1], "body ran more than once per binding under threads")
    for k in (0, 1):
        objs = {id(x[1]) for i, x in enumerate(res) if i % 2 == k}
        check(all(x[0] == "ok" for x in res), "a caller failed", res=res)
        eq(len(objs), 1, "threads got different objects")


@D.case(30)
def memo_recursive_and_baseexception(r):
    @memoize
    def fib(n):
        return n if n < 2 else fib(n - 1) + fib(n - 2)
    eq(fib(80), 23416728348467685)
    for e in (KeyboardInterrupt(), SystemExit()):
        runs = []
        @memoize
        def f():
            runs.append(1); raise e
        for _ in range(3):
            try:
                f()
            except BaseException as x:
                same(x, e)
        eq(len(runs), 1)
    # separate memos
    @memoize
    def a(x): return Item("a")
    @memoize
    def b(x): return Item("b")
    check(a(1) is not b(1), "two memoized functions share results")


@D.case(200)
def promises(r):
    runs = []
    want = r.choice([("ok", Item(1)), ("ok", None), ("ok", 0), ("ok", False), ("exc", Boom(1)), ("ok", Boom("returned, not raised")), ("ok", ValueError)])
    def thunk():
        runs.append(1)
        if want[0] == "exc":
            raise want[1]
        return want[1]
    p = Lazy(thunk)
    eq(len(runs), 0, "promise evaluated at creation")
    for _ in range(r.randint(1, 6)):
        how = r.choice([p.force, lambda: force1(p), lambda: force(p), lambda: maybe_force_args(lambda x: x, p)])
        got = outcome(how)
        check(got[0] == want[0] and (got[1] if got[0] == "ok" else got[2]) is want[1], "promise gave a different value", got=got, want=want)
        eq(len(runs), 1, "computation did not run exactly once")
    raises(TypeError, lambda: Lazy(42), "thunk must be callable")


def plain(x):
    """structure with promises replaced by the values they hold (specification)"""
    if isinstance(x, Lazy):
        return ("v", id(x))
    return x


@D.case(300)
def force_containers(r):
    runs = collections.Counter()
    proms = []
    def promise():
        i = len(proms)
        v = Item(i)
        def th():
            runs[i] += 1
            return v
        p = Lazy(th)
        proms.append((p, v))
        return p, v
    def build(d):
        """-> (with promises, expected)"""
        k = r.randrange(12) if d > 0 else r.randrange(2)
        if k == 0:
            return promise()
        if k == 1:
            v = r.choice([1, "abc", None, b"x", range(3), Item("plain")])
            return v, v
        ch = [build(d - 1) for _ in range(r.randint(0, 3))] if k not in (7, 8, 11) else []
        a = [c[0] for c in ch]; b = [c[1] for c in ch]
        if k == 2: return a, b
        if k == 3: return tuple(a), tuple(b)
        if k == 4: return dict(enumerate(a)), dict(enumerate(b))
        if k == 5: return collections.deque(a), collections.deque(b)
        if k == 6: return frozendict(dict(enumerate(a))), frozendict(dict(enumerate(b)))
        if k == 7:
            x, y = build(d - 1); return box(x), box(y)
        if k == 8:
            x, y = build(d - 1); return Some(x), Some(y)
        if k == 9: return ll(*a), ll(*b)
        if k == 10: return Values(*a[:1], **{"k%d" % i: v for i, v in enumerate(a[1:])}), Values(*b[:1], **{"k%d" % i: v for i, v in enumerate(b[1:])})
        NT = collections.namedtuple("NT", "p q")
        (x, y), (z, w) = build(d - 1), build(d - 1)
        return NT(x, z), NT(y, w)
    def same_struct(g, w):
        if isinstance(w, (list, tuple, collections.deque)):
            check(type(g) is type(w) or type(g).__name__ == type(w).__name__, "container kind changed", got=g, want=w); eq(len(g), len(w))
            for x, y in zip(g, w): same_struct(x, y)
        elif isinstance(w, (dict, frozendict)):
            check(type(g) is type(w) and list(g) == list(w), "mapping changed", got=g, want=w)
            for k in w: same_struct(g[k], w[k])
        elif isinstance(w, (box, Some)):
            check(type(g) is type(w)); same_struct(g.get(), w.get())
        elif isinstance(w, cons):
            check(type(g) is cons); same_struct(g.car, w.car); same_struct(g.cdr, w.cdr)
        elif isinstance(w, Values):
            check(type(g) is Values); same_struct(g.rets, w.rets); same_struct(g.kwrets, w.kwrets)
        else:
            check(g is w, "leaf differs (or is an unforced promise)", got=g, want=w)
    a, b = build(3)
    same_struct(force(a), b)
    for i, (p, v) in enumerate(proms):
        check(runs[i] == 1, "promise in a container not forced exactly once", n=runs[i])
    # non-promises come back as they are
    for x in (1, None, "s", Item(1), box, len):
        same(force1(x), x); same(force(x), x)
    p, v = promise()
    q, w = promise()
    def f(x, *, y): return (x, y)
    got = maybe_force_args(f, p, y=q)
    check(got[0] is v and got[1] is w, "arguments not forced")


@D.case(150)
def forcing_calls(r):
    """maybe_force_args: strict functions get forced arguments, functions marked lazy get them untouched, each call made once."""
    from unpythonic.lazyutil import passthrough_lazy_args, islazy
    from unpythonic.tco import jump, _jump
    runs = []
    def mkarg(i):
        c = r.randrange(4)
        if c == 0: x = Item(i); return x, x
        def th(): runs.append(i); return val
        val = Item(("v", i)); p = Lazy(th)
        if c == 1: return p, val
        if c == 2: return [p, i], [val, i]
        return {"k": p}, {"k": val}
    n = r.randint(0, 3); args = [mkarg(i) for i in range(n)]; kw = {k: mkarg(k) for k in r.sample("abc", r.randint(0, 2))}
    log = []; ret = Item("ret")
    def f(*a, **k): log.append((a, k)); return ret
    lazy = r.random() < .5
    if lazy: f = passthrough_lazy_args(f)
    eq(islazy(f), lazy)
    given = [a for a, _ in args]
    same(maybe_force_args(f, *given, **{k: v[0] for k, v in kw.items()}), ret); eq(len(log), 1, "calls")
    if lazy:
        eq(runs, [], "a lazy function's argument was forced"); same_items(log[0][0], given); check(all(log[0][1][k] is v[0] for k, v in kw.items()))
    else:
        check(list(log[0][0]) == [w for _, w in args], "forced arguments", got=log[0]); check(log[0][1] == {k: v[1] for k, v in kw.items()}); eq(len(runs), len(set(runs)), "promise run twice")
    tgt = lambda *a: None
    del runs[:]
    ps = [Lazy(lambda: runs.append(1)) for _ in range(2)]
    j = maybe_force_args(jump, Lazy(lambda: tgt), *ps, k=ps[0])
    check(isinstance(j, _jump) and j.target is tgt and list(j.args) == ps and j.kwargs == {"k": ps[0]} and not runs, "jump through maybe_force_args"); j._claimed = True


if __name__ == "__main__":
    D.main()

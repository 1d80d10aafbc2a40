from base import *
import importlib
L = importlib.import_module("unpythonic.let")
LL = importlib.import_module("unpythonic.lispylet")
from unpythonic import begin, begin0, lazy_begin, lazy_begin0, do, do0, assign
from unpythonic.env import env as Env
D = Driver("P12")
NAMES = ["a", "b", "c", "d", "e1", "f"]


def forms(api):
    if api == "let":
        return (lambda bs, body: L.let(body, **dict(bs))), (lambda bs, body: L.letrec(body, **dict(bs))), \
            (lambda bs: L.dlet(**dict(bs))), (lambda bs: L.dletrec(**dict(bs))), (lambda bs: L.blet(**dict(bs))), (lambda bs: L.bletrec(**dict(bs)))
    return (lambda bs, body: LL.let(tuple(bs), body)), (lambda bs, body: LL.letrec(tuple(bs), body)), \
        (lambda bs: LL.dlet(tuple(bs))), (lambda bs: LL.dletrec(tuple(bs))), (lambda bs: LL.blet(tuple(bs))), (lambda bs: LL.bletrec(tuple(bs)))


@D.case(300)
def let_forms(r):
    let, letrec, dlet, dletrec, blet, bletrec = forms(r.choice(["let", "lispylet"]))
    names = r.sample(NAMES, r.randint(1, 5))
    # let: every value bound as is, callables included, and none called
    called = []
    vals = [r.choice([Item(i), None, 0, (lambda *a: called.append(a)), [], len]) for i in range(len(names))]
    res = Item("result")
    seen = []
    def body(e):
        for n, v in zip(names, vals):
            same(e[n], v, "let binding"); same(getattr(e, n), v)
        eq(sorted(e), sorted(names), "let environment has other names")
        seen.append(1)
        return res
    same(let(list(zip(names, vals)), body), res, "value of let is the value of its body")
    eq(seen, [1], "let body not run exactly once"); eq(called, [], "let called a binding")
    # adding names in the body is not allowed; rebinding is
    def body2(e):
        raises(AttributeError, lambda: setattr(e, "zzz", 1), "let environment can grow")
        n = names[0]; v = Item("new"); e.set(n, v); same(e[n], v); return e[n]
    check(isinstance(let(list(zip(names, vals)), body2), Item))
    raises(TypeError, lambda: let([("a", 1)], "not callable"))
    raises(TypeError, lambda: let([("a", 1)], lambda: 1))


@D.case(300)
def letrec_forms(r):
    let, letrec, dlet, dletrec, blet, bletrec = forms(r.choice(["let", "lispylet"]))
    names = r.sample(NAMES, r.randint(1, 6))
    log = []
    want = {}
    bs = []
    for i, n in enumerate(names):
        kind = r.randrange(4)
        earlier = list(names[:i])
        v = Item(n)
        if kind == 0:
            bs.append((n, v)); want[n] = v
        elif kind == 1:
            def init(e, n=n, v=v, earlier=earlier):
                log.append(n)
                check(sorted(e) == sorted(earlier), "letrec binding does not see exactly the earlier ones", got=sorted(e), want=sorted(earlier), at=n)
                for x in earlier:
                    if want[x] is not None: same(e[x], want[x])
                return v
            bs.append((n, init)); want[n] = v
        elif kind == 2 and earlier:
            x = r.choice(earlier)
            def init(e, n=n, x=x):
                log.append(n); return e[x]
            bs.append((n, init)); want[n] = want[x]
        else:
            later = r.choice(names)
            def init(e, n=n, later=later):
                log.append(n)
                def fn():
                    return e[later]
                return fn
            bs.append((n, init)); want[n] = None
    inits = [n for n, v in bs if callable(v)]
    res = Item("res")
    runs = []
    def body(e):
        runs.append(1)
        eq(log, inits, "letrec initialisers not run once each in order")
        for n in names:
            if want[n] is not None:
                same(e[n], want[n], "letrec binding", n=n)
            else:
                check(callable(e[n]))
                e[n]()        # may refer to any binding, also later ones
        return res
    same(letrec(bs, body), res); eq(runs, [1])
    # mutual recursion
    out = letrec([("ev", lambda e: lambda x: x == 0 or e.od(x - 1)), ("od", lambda e: lambda x: x != 0 and e.ev(x - 1))], lambda e: [e.ev(k) for k in range(6)])
    eq(out, [True, False, True, False, True, False])
    raises(TypeError, lambda: letrec([("a", lambda: 1)], lambda e: 1), "initialiser arity")


@D.case(150)
def decorators(r):
    let, letrec, dlet, dletrec, blet, bletrec = forms(r.choice(["let", "lispylet"]))
    @dlet([("n", 0)])
    def counter(k=1, *, env=None):
        env.n = env.n + k
        return env.n
    @dlet([("n", 100)])
    def counter2(*, env=None):
        env.n = env.n + 1
        return env.n
    a = b = 0
    for _ in range(r.randint(1, 10)):
        if r.random() < .5:
            k = r.randint(1, 3); a += k
            eq(counter(k), a, "let-over-lambda state")
        else:
            b += 1; eq(counter2(), 100 + b, "decorated functions must not share an environment")
    deco = dlet([("n", 0)])
    @deco
    def f(*, env): env.n += 1; return env.n
    @deco
    def g(*, env): env.n += 1; return env.n
    check(f() == 1 and f() == 2 and g() == 1, "one decorator applied twice must give separate environments")
    x, y = Item(1), Item(2)
    @dletrec([("p", x), ("q", lambda e: (e.p, y))])
    def h(u, *, v, env):
        return (u, v, env.p, env.q)
    got = h(1, v=2); check(got[0] == 1 and got[1] == 2 and got[2] is x and got[3][0] is x and got[3][1] is y, "dletrec", got=got)
    @blet([("p", x)])
    def r1(*, env): return env.p
    same(r1, x, "blet runs the block once and binds its value")
    @bletrec([("p", x), ("q", lambda e: e.p)])
    def r2(*, env): return env.q
    same(r2, x, "bletrec")


@D.case(200)
def sequencing(r):
    n = r.randint(0, 6)
    xs = items(n)
    same(begin(*xs), xs[-1] if xs else None, "begin"); same(begin0(*xs), xs[0] if xs else None, "begin0")
    for f, pick in ((lazy_begin, -1), (lazy_begin0, 0)):
        log = []
        def th(i):
            def go():
                log.append(i); return xs[i]
            return go
        same(f(*[th(i) for i in range(n)]), xs[pick] if n else None, "lazy sequencing value", n=n)
        eq(log, list(range(n)), "lazy sequencing must run every item once, left to right")


@D.case(300)
def do_sequence(r):
    log = []
    model = {}
    envs = []
    its = []
    exp = []
    n = r.randint(1, 7)
    for i in range(n):
        kind = r.randrange(4)
        v = r.choice([Item(i), None, 0])
        if kind == 0:
            its.append(v); exp.append(("const", v))
        elif kind == 1:
            def f(e, i=i, v=v):
                log.append(i); envs.append(e)
                cur = snapshots[i]
                check({k: id(x) for k, x in e.items() if k != "_do0_result"} == {k: id(x) for k, x in cur.items()}, "environment in do differs", at=i, got=dict(e.items()), want=cur)
                return v
            its.append(f); exp.append(("call", v, i))
        elif kind == 2:
            nm = r.choice(NAMES); its.append(assign(**{nm: v})); exp.append(("assign", nm, v, None))
        else:
            nm = r.choice(NAMES)
            def f(e, i=i, v=v):
                log.append(i); return v
            its.append(assign(**{nm: f})); exp.append(("assign", nm, v, i))
    snapshots = []
    vals = []
    order = []
    for x in exp:
        snapshots.append(dict(model))
        if x[0] == "const": vals.append(x[1])
        elif x[0] == "call": vals.append(x[1]); order.append(x[2])
        else:
            model[x[1]] = x[2]; vals.append(x[2])
            if x[3] is not None: order.append(x[3])
    same(do(*its), vals[-1], "value of do is its last item"); eq(log, order, "do must evaluate every item once, left to right")
    log.clear()
    same(do0(*its), vals[0], "value of do0 is its first item"); eq(log, order, "do0 must evaluate every item once, left to right")
    # isolation between do's
    do(assign(a=1), lambda e: e.a)
    raises(AttributeError, lambda: do(lambda e: e.a), "assignment leaked out of do")
    raises(ValueError, lambda: do(lambda: 1), "arity of a do item")
    raises(ValueError, lambda: assign(a=1, b=2)); raises(ValueError, lambda: assign())


@D.case(30)
def letrec_arity(r):
    """A callable letrec binding or body that cannot take the environment is an error (documented)."""
    raises(TypeError, lambda: L.letrec(f=lambda: 1, body=lambda e: e.f)); raises(TypeError, lambda: L.letrec(f=lambda a, b: 1, body=lambda e: e.f))
    raises(TypeError, lambda: L.let(x=1, body=lambda: 2)); raises(TypeError, lambda: L.let(x=1, body=lambda a, b: 2))
    x = Item("x"); same(begin0(x), x); same(begin(x), x); same(lazy_begin0(lambda: x), x)


if __name__ == "__main__":
    D.main()

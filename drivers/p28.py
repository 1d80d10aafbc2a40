from base import *
import operator
from unpythonic.amb import forall, choice, insist, deny, MonadicList, ok, fail as amb_fail
D = Driver("P28")


@D.case(1500)
def programs(r):
    """Random blocks: choices (constant or depending on earlier names), guards, plain lines; oracle: nested loops."""
    n = r.randint(1, 6)
    names = "abcd"
    lines, plan = [], []
    log = []
    bound = []
    for j in range(n - 1):
        k = r.random()
        if k < .5:
            nm = r.choice(names)
            if bound and r.random() < .4:
                dep = r.choice(bound); lo = r.randint(0, 2)
                f = lambda v, lo=lo: list(range(lo, v % 4))
                body = lambda e, dep=dep, f=f, j=j: (log.append((j, snap(e))), r2(f(getattr(e, dep))))[1]
                plan.append(("dep", nm, dep, f, j))
            else:
                xs = [r.randint(0, 5) for _ in range(r.choice([0, 1, 2, 2, 3, 3]))]
                kind = r.randrange(3)
                body = xs if kind == 0 else tuple(xs) if kind == 1 else (lambda e, xs=xs, j=j: (log.append((j, snap(e))), iter(xs))[1])
                plan.append(("const", nm, xs, kind == 2, j))
            bound.append(nm); lines.append(choice(**{nm: body}))
        elif k < .8 and bound:
            dep = r.choice(bound); m = r.randint(2, 3); q = r.randrange(m); neg = r.random() < .4
            pred = lambda v, m=m, q=q: v % m == q
            lines.append((lambda e, dep=dep, pred=pred, j=j: (log.append((j, snap(e))), deny(pred(getattr(e, dep))))[1]) if neg else (lambda e, dep=dep, pred=pred, j=j: (log.append((j, snap(e))), insist(pred(getattr(e, dep))))[1]))
            plan.append(("guard", dep, pred, neg, j))
        else:
            w = r.choice([ok, amb_fail, (1, 2)]) if r.random() < .5 else (ok if r.random() < .8 else amb_fail)
            lines.append(lambda e, w=w, j=j: (log.append((j, snap(e))), w)[1]); plan.append(("plain", len(w), None, None, j))
    lines.append(lambda e: (log.append((n - 1, snap(e))), tuple(sorted(snap(e).items())))[1])
    want, wantlog = [], []
    def run(i, env):
        if i == len(plan):
            wantlog.append((n - 1, dict(env))); want.append(tuple(sorted(env.items()))); return
        p = plan[i]
        if p[0] == "dep":
            wantlog.append((p[4], dict(env)))
            for v in p[3](env[p[2]]): run(i + 1, {**env, p[1]: v})
        elif p[0] == "const":
            if p[3]: wantlog.append((p[4], dict(env)))
            for v in p[2]: run(i + 1, {**env, p[1]: v})
        elif p[0] == "guard":
            wantlog.append((p[4], dict(env)))
            if p[2](env[p[1]]) != p[3]: run(i + 1, env)
        else:
            wantlog.append((p[4], dict(env)))
            for _ in range(p[1]): run(i + 1, env)
    run(0, {})
    got = forall(*lines)
    eq(got, tuple(want), "solutions", plan=plan); eq(log, wantlog, "lines run, with their bindings", plan=plan)


def snap(e):
    return {k: getattr(e, k) for k in "abcd" if hasattr(e, k)}


def r2(x): return x


@D.case(300)
def misc_(r):
    xs = items(r.randint(0, 4)); ys = items(r.randint(0, 4))
    same_items([x for p in forall(choice(x=xs), choice(y=ys), lambda e: (e.x, e.y)) for x in p], [z for x in xs for y in ys for z in (x, y)], "product")
    eq(forall(7), (7,)); eq(forall(lambda e: 7), (7,)); eq(forall(choice(x=[3, 4])), ([3, 4],)) if False else None
    raises(ValueError, lambda: choice(a=1, b=2)); raises(ValueError, lambda: choice())
    # an exception in a line propagates, whatever its type
    for E in (TypeError, ValueError, KeyError, StopIteration if False else ZeroDivisionError, AttributeError):
        def boom(e, E=E):
            if e.x is last: raise E("boom")
            return e.x
        if xs: last = r.choice(xs); raises(E, lambda: forall(choice(x=xs), boom), "exception lost"); raises(E, lambda: forall(choice(x=xs), boom, lambda e: 1), "exception lost"); raises(E, lambda: forall(choice(x=xs), choice(y=lambda e: (boom(e) for _ in range(2))), lambda e: 1), "exception lost in generator")
    # names do not leak from a branch to another or to earlier lines
    seen = []
    forall(choice(a=[1, 2]), lambda e: (seen.append(hasattr(e, "b")), ok)[1], choice(b=[3, 4]), lambda e: 0)
    eq(seen, [False, False], "later name visible earlier")


@D.case(600)
def laws(r):
    M = MonadicList
    m = M(*items(r.randint(0, 5))); x = Item("x")
    table = {}
    def k(tag):
        def f(v):
            key = (tag, id(v) if isinstance(v, Item) else v)
            if key not in table: table[key] = (v, M(*[Item((tag, i)) for i in range(r.randint(0, 3))]))
            return table[key][1]
        return f
    f, g = k("f"), k("g")
    L = lambda z: [id(q) for q in z]
    eq(L(M(x) >> f), L(f(x)), "left identity"); eq(L(m >> (lambda v: M(v))), L(m), "right identity"); eq(L((m >> f) >> g), L(m >> (lambda v: f(v) >> g)), "associativity")
    eq(L(m >> f), [id(q) for v in m for q in f(v)], "bind"); h = lambda v: Item(0); eq(len(m.fmap(h)), len(m)); eq(L(m.fmap(lambda v: v)), L(m), "functor identity")
    eq(L(m.then(M(x))), [id(x)] * len(m), "then"); eq(L(M.guard(True)), [id(True)]); eq(L(M.guard(False)), []); eq(L(M.guard([]) >> f), []); eq(L(deny(0)), [id(True)]); eq(len(deny(1)), 0)
    a, b = M(*items(2)), M(*items(3)); eq(L(a + b), L(a) + L(b)); eq(L(M.from_iterable(mk(r, list(m)))), L(m)); eq(L(m.copy()), L(m)); eq(L(M(a, b).join()), L(a) + L(b)); eq(L(M.lift(lambda v: v)(x)), [id(x)])
    raises(TypeError, lambda: M(1).join()); raises(TypeError, lambda: M(1).then(1)); raises(TypeError, lambda: M(1) + [1])
    raises(TypeError, lambda: m.fmap(lambda v: v + 1), "exception in fmap lost") if len(m) else None
    check(m == m and M(1, 2) == M(1, 2) and not (M(1) == M(2)) and not (M(1) == M(1, 1)))


@D.case(100)
def monadic_lists(r):
    a = [r.randint(0, 2) for _ in range(r.randint(0, 4))]; b = [r.randint(0, 2) for _ in range(r.randint(0, 4))]
    if r.random() < .5: b = a[:r.randint(0, len(a))]
    A, B = MonadicList(*a), MonadicList(*b)
    eq(A == B, a == b, "equality", a=a, b=b); eq(B == A, a == b); eq(A == MonadicList(*a), True)
    eq(list(A + B), a + b); eq(len(A), len(a)); eq([A[i] for i in range(len(a))], a)
    eq(list(A.then(B)), b * len(a)); raises(TypeError, lambda: A.then(b)); raises(TypeError, lambda: A + b)
    eq(list(MonadicList(A, B).join()), a + b); eq(list(MonadicList.from_iterable(iter(a))), a); eq(list(A.fmap(lambda x: (x, 1))), [(x, 1) for x in a])
    eq(list(A >> (lambda x: MonadicList(x, -x))), [y for x in a for y in (x, -x)]); eq(list(MonadicList.lift(lambda x: x + 1)(3)), [4])


if __name__ == "__main__":
    D.main()

from base import *
from unpythonic import (scanl, scanr, scanl1, scanr1, foldl, foldr, reducel, reducer, rscanl, rscanl1, rfoldl, rreducel, unfold, unfold1,
                        prod, running_minmax, minmax, Values, take)
D = Driver("P08")


def f(*a):
    return ("f",) + a


def sscan(zs, init):
    out = [init]
    for z in zs:
        out.append(f(*z, out[-1]))
    return out


@D.case(500)
def folds(r):
    k = r.choice([1, 1, 2, 3])
    xss = [[(i, j) for j in range(r.randrange(6))] for i in range(k)]
    M = lambda: [mk(r, xs) for xs in xss]
    init = r.choice(["init", None, 0, ()])
    fv = r.choice([None, "fill"])
    longest = bool(r.randrange(2))
    kw = dict(longest=True, fillvalue=fv) if longest else {}
    z = (lambda *a: list(itertools.zip_longest(*a, fillvalue=fv))) if longest else (lambda *a: list(zip(*a)))
    left = sscan(z(*xss), init)
    right = sscan(z(*xss)[::-1], init)
    rleft = sscan(z(*[xs[::-1] for xs in xss]), init)
    ctx = dict(xss=xss, init=init, kw=kw)
    eq(list(scanl(f, init, *M(), **kw)), left, "scanl", **ctx)
    eq(foldl(f, init, *M(), **kw), left[-1], "foldl", **ctx)
    eq(list(scanr(f, init, *M(), **kw)), right, "scanr", **ctx)
    eq(foldr(f, init, *M(), **kw), right[-1], "foldr", **ctx)
    eq(list(rscanl(f, init, *M(), **kw)), rleft, "rscanl", **ctx)
    eq(rfoldl(f, init, *M(), **kw), rleft[-1], "rfoldl", **ctx)


@D.case(500)
def reductions(r):
    xs = [r.choice([("x", j), None, 0, False, ""]) if r.randrange(3) == 0 else ("x", j) for j in range(r.randrange(6))]
    init = r.choice([None, "i", 0, False, ""])
    M = lambda: mk(r, xs)
    def s1(ys):
        if init is not None:
            return sscan([(y,) for y in ys], init)
        if not ys:
            return []
        return sscan([(y,) for y in ys[1:]], ys[0])
    L, R = s1(xs), s1(xs[::-1])
    ctx = dict(xs=xs, init=init)
    eq(list(scanl1(f, M(), init)), L, "scanl1", **ctx); eq(list(scanr1(f, M(), init)), R, "scanr1", **ctx)
    eq(list(rscanl1(f, M(), init)), R, "rscanl1", **ctx)
    eq(reducel(f, M(), init), L[-1] if L else None, "reducel", **ctx); eq(reducer(f, M(), init), R[-1] if R else None, "reducer", **ctx)
    eq(rreducel(f, M(), init), R[-1] if R else None, "rreducel", **ctx)
    if init is None:
        eq(reducel(f, M()), L[-1] if L else None); eq(list(scanr1(f, M())), R)


@D.case(100)
def calls_once_in_order(r):
    xs = list(range(r.randrange(6)))
    log = []
    def g(x, acc):
        log.append((x, acc)); return len(log)
    foldl(g, "i", mk(r, xs))
    eq(log, [(x, "i" if j == 0 else j) for j, x in enumerate(xs)], "foldl calls")
    log.clear(); foldr(g, "i", mk(r, xs))
    eq(log, [(x, "i" if j == 0 else j) for j, x in enumerate(xs[::-1])], "foldr calls")
    # exceptions propagate
    class E(Exception):
        pass
    def bad(x, acc):
        raise E
    if xs:
        raises(E, lambda: foldl(bad, 0, mk(r, xs))); raises(E, lambda: foldr(bad, 0, mk(r, xs))); raises(E, lambda: list(scanl(bad, 0, mk(r, xs))))


@D.case(100)
def unfolds(r):
    n = r.randrange(0, 8)
    vals = [r.choice([None, 0, False, Item(j)]) for j in range(n)]
    log = []
    def step(s):
        log.append(s)
        return (vals[s], s + 1) if s < n else None
    eq(list(unfold1(step, 0)), vals, "unfold1"); eq(log, list(range(n + 1)), "unfold1 step calls")
    log.clear()
    def step2(s, *, k):
        log.append((s, k))
        return Values(vals[s], s + 1, k=k * 2) if s < n else None
    eq(list(unfold(step2, 0, k=1)), vals, "unfold"); eq(log, [(j, 2 ** j) for j in range(n + 1)], "unfold step calls")
    def fib(a, b):
        return Values(a, b, a + b)
    eq(list(take(8, unfold(fib, 1, 1))), [1, 1, 2, 3, 5, 8, 13, 21])
    raises(TypeError, lambda: list(unfold(lambda x: (x, x), 1)))
    # state may be falsy
    eq(list(take(3, unfold1(lambda s: (s, s), None))), [None] * 3)


@D.case(200)
def numbers(r):
    xs = [r.randrange(-9, 9) for _ in range(r.randrange(7))]
    import math
    eq(prod(mk(r, xs)), math.prod(xs), "prod", xs=xs); eq(prod(mk(r, xs), start=3), 3 * math.prod(xs), "prod start", xs=xs)
    eq(prod(mk(r, xs), start=0), 0 if xs or True else 0, "prod start 0")
    eq(list(running_minmax(mk(r, xs))), [(min(xs[:k]), max(xs[:k])) for k in range(1, len(xs) + 1)], "running_minmax", xs=xs)
    eq(minmax(mk(r, xs)), (min(xs), max(xs)) if xs else (None, None), "minmax", xs=xs)
    # first of equals is kept
    ys = [EqLt(r.randrange(3), j) for j in range(r.randrange(1, 6))]
    a, b = minmax(iter(ys))
    same(a, min(ys), "minmax keeps the first minimal item", ys=ys); same(b, max(ys), "minmax keeps the first maximal item", ys=ys)


class EqLt:
    def __init__(self, n, tag):
        self.n, self.tag = n, tag
    def __eq__(self, o):
        return self.n == o.n
    def __lt__(self, o):
        return self.n < o.n
    def __gt__(self, o):
        return self.n > o.n
    def __repr__(self):
        return f"{self.n}.{self.tag}"


if __name__ == "__main__":
    D.main()

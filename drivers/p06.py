from base import *
from operator import add
from unpythonic import (window, chunked, interleave, pad, scons, uniqify, uniq, flatten, flatten1, flatten_in, partition, map as umap, map_longest,
                        rmap, rzip, rmap_longest, rzip_longest, mapr, zipr, mapr_longest, zipr_longest, flatmap, rev, powerset, within, inn, iindex,
                        find, iterate, iterate1, subset, allsame, Values, take)
D = Driver("P06")


@D.case()
def windows_chunks(r):
    cnt = 0
    for m in range(0, 10):
        for n in range(2, 12):
            for kind in ("list", "iter", "gen", "src"):
                xs = items(m)
                got = list(window(n, mk(r, xs, (kind,))))
                want = [tuple(xs[i:i + n]) for i in range(0, m - n + 1)]
                eq([ids(w) for w in got], [ids(w) for w in want], "window", n=n, m=m)
                check(all(type(w) is tuple for w in got), "window yields tuples")
                got = [list(c) for c in chunked(n, mk(r, xs, (kind,)))]
                want = [xs[i:i + n] for i in range(0, m, n)]
                eq([ids(c) for c in got], [ids(c) for c in want], "chunked", n=n, m=m)
                p = list(pad(n, None, mk(r, xs, (kind,))))
                same_items(p, xs + [None] * (n - m), "pad", n=n, m=m)
                cnt += 3
        for n in (-1, 0, 1):
            same_items(pad(n, "f", items(0)), ["f"] * max(0, n), "pad")
    for n in (-1, 0, 1):
        raises(ValueError, lambda: window(n, [1, 2, 3])); raises(ValueError, lambda: chunked(n, [1, 2, 3]))
    ws = list(window(2, iter(range(5))))
    eq(ws, [(0, 1), (1, 2), (2, 3), (3, 4)], "windows must not alias each other")
    return cnt


@D.case(200)
def interleaving(r):
    ls = [r.randrange(6) for _ in range(r.randrange(1, 5))]
    xss = [[Item((i, j)) for j in range(n)] for i, n in enumerate(ls)]
    want = []
    done = False
    for j in itertools.count():
        for i, n in enumerate(ls):
            if j >= n:
                done = True
                break
            want.append(xss[i][j])
        if done:
            break
    same_items(interleave(*[mk(r, xs) for xs in xss]), want, "interleave stops at the first exhausted input", ls=ls)


@D.case()
def interleave_none(r):
    eq(list(take(5, interleave())), [])


@D.case(300)
def uniq_like(r):
    n = r.randrange(12)
    xs = [EqItem(r.randrange(5), j) for j in range(n)]
    seen, want = set(), []
    for x in xs:
        if x not in seen:
            seen.add(x); want.append(x)
    got = list(uniqify(mk(r, xs)))
    eq(ids(got), ids(want), "uniqify keeps the first of each", xs=xs, got_=got)
    want = [x for i, x in enumerate(xs) if i == 0 or not xs[i - 1] == x]
    got = list(uniq(mk(r, xs)))
    eq(ids(got), ids(want), "uniq keeps the first of each run", xs=xs, got_=got)
    key = lambda x: x.n // 2
    seen, want = set(), []
    for x in xs:
        if key(x) not in seen:
            seen.add(key(x)); want.append(x)
    eq(ids(uniqify(mk(r, xs), key=key)), ids(want), "uniqify key", xs=xs)
    want = [x for i, x in enumerate(xs) if i == 0 or key(xs[i - 1]) != key(x)]
    eq(ids(uniq(mk(r, xs), key=key)), ids(want), "uniq key", xs=xs)
    x = Item("x")
    same_items(scons(x, mk(r, xs)), [x] + xs, "scons")


@D.case()
def uniq_falsy(r):
    xs = [None, None, 0, False, "", None, 0.0, (), ()]
    got = list(uniqify(iter(xs))); eq(got, [None, 0, "", ()])
    got = list(uniqify(iter(xs), key=lambda x: x)); eq(got, [None, 0, "", ()])
    eq(list(uniq(iter(xs))), [None, 0, "", None, 0.0, ()])
    eq(list(uniqify([3, 1, 2], key=lambda x: None)), [3])


def rtree(r, d):
    if d == 0 or r.randrange(3) == 0:
        return r.choice([Item(r.randrange(100)), "ab", None, 0, frozenset([1]), range(2)])
    t = [rtree(r, d - 1) for _ in range(r.randrange(4))]
    return t if r.randrange(2) else tuple(t)


def nested(e):
    return all(isinstance(x, (list, tuple)) for x in e)


def sflat(xs, pred):
    for e in xs:
        if isinstance(e, (list, tuple)) and pred(e):
            yield from sflat(e, pred)
        else:
            yield e


def sflat1(xs, pred):
    for e in xs:
        if isinstance(e, (list, tuple)) and pred(e):
            yield from e
        else:
            yield e


def sflat_in(xs, pred):
    for e in xs:
        if isinstance(e, (list, tuple)):
            if pred(e):
                yield from sflat_in(e, pred)
            else:
                yield type(e)(sflat_in(e, pred))
        else:
            yield e


@D.case(400)
def flattening(r):
    t = [rtree(r, 4) for _ in range(r.randrange(5))]
    preds = [None, nested, lambda e: len(e) != 2, lambda e: False, lambda e: isinstance(e, list)]
    p = r.choice(preds)
    pp = p or (lambda e: True)
    eq(list(flatten(mk(r, t), p)), list(sflat(t, pp)), "flatten", t=t)
    eq(list(flatten_in(mk(r, t), p)), list(sflat_in(t, pp)), "flatten_in", t=t)
    if p:
        eq(list(flatten1(mk(r, t), p)), list(sflat1(t, pp)), "flatten1", t=t)
    ll = [[Item((i, j)) for j in range(r.randrange(4))] for i in range(r.randrange(4))]
    same_items(flatten1(mk(r, ll)), [x for l in ll for x in l], "flatten1")


@D.case(300)
def maps(r):
    k = r.randrange(1, 4)
    xss = [[(i, j) for j in range(r.randrange(6))] for i in range(k)]
    log = []
    def f(*a):
        log.append(a)
        return ("f",) + a
    M = lambda: [mk(r, xs) for xs in xss]
    short = min(map(len, xss)); lng = max(map(len, xss))
    fv = Item("fill")
    zs = list(zip(*xss)); zl = list(itertools.zip_longest(*xss, fillvalue=fv))
    rz = list(zip(*[xs[::-1] for xs in xss])); rzl = list(itertools.zip_longest(*[xs[::-1] for xs in xss], fillvalue=fv))
    F = lambda z: [("f",) + a for a in z]
    for name, got, want in (
            ("map", umap(f, *M()), F(zs)), ("map_longest", map_longest(f, *M(), fillvalue=fv), F(zl)),
            ("rmap", rmap(f, *M()), F(rz)), ("rzip", rzip(*M()), rz), ("rmap_longest", rmap_longest(f, *M(), fillvalue=fv), F(rzl)),
            ("rzip_longest", rzip_longest(*M(), fillvalue=fv), rzl), ("mapr", mapr(f, *M()), F(zs)[::-1]), ("zipr", zipr(*M()), zs[::-1]),
            ("mapr_longest", mapr_longest(f, *M(), fillvalue=fv), F(zl)[::-1]), ("zipr_longest", zipr_longest(*M(), fillvalue=fv), zl[::-1])):
        log.clear()
        g = list(got)
        eq(g, want, name, xss=xss)
        if "map" in name:
            eqv(len(log), len(want), f"{name}: function called once per output")
    eq(list(map_longest(f, *M())), F(itertools.zip_longest(*xss)))
    eq(list(zipr_longest(*M())), list(itertools.zip_longest(*xss))[::-1])
    eq(list(rzip_longest(*M())), list(itertools.zip_longest(*[x[::-1] for x in xss])))
    fm = lambda *a: [("g", x) for x in a] if len(a[0]) and a[0][1] % 2 else iter([])
    eq(list(flatmap(fm, *M())), [y for a in zs for y in fm(*a)], "flatmap")
    xs = items(r.randrange(6))
    same_items(rev(mk(r, xs)), xs[::-1], "rev")


@D.case(300)
def searching(r):
    xs = [r.randrange(6) for _ in range(r.randrange(8))]
    x = r.randrange(6)
    M = lambda: mk(r, xs)
    if x in xs:
        eqv(iindex(x, M()), xs.index(x), "iindex", xs=xs, x=x)
    else:
        raises(ValueError, lambda: iindex(x, M()))
    pr = lambda y: y >= x
    d = Item("d")
    want = [y for y in xs if pr(y)]
    eqv(find(pr, M()), want[0] if want else None, "find"); eqv(find(pr, M(), default=d), want[0] if want else d, "find default")
    a, b = partition(pr, M())
    if r.randrange(2):
        eq(list(a), [y for y in xs if not pr(y)], "partition, false part"); eq(list(b), want, "partition, true part")
    else:
        eq(list(b), want); eq(list(a), [y for y in xs if not pr(y)])
    mono = sorted(xs, reverse=bool(r.randrange(2)))
    for y in range(-1, 8):
        eqv(bool(inn(y, mk(r, mono))), y in mono, "inn on a monotonic input", y=y, mono=mono)
    up = Src(lambda k: 3 * (k // 2), infinite=True)
    y = r.randrange(60)
    eqv(bool(inn(y, up)), y % 3 == 0, "inn on infinite increasing", y=y)
    eqv(bool(inn(-y, Src(lambda k: -3 * (k // 2), infinite=True))), y % 3 == 0, "inn on infinite decreasing", y=y)
    import fractions
    z = r.randrange(-1, 8)
    for y2 in (float(z), fractions.Fraction(z), z + .5):
        eqv(bool(inn(y2, mk(r, mono))), y2 in mono, "inn: equal values of another numeric type", y=y2, mono=mono)
    check(bool(inn(4, iter([4, 5]))) and not inn(4, iter([])) and bool(inn(2, iter([2, 2, 2]))) and not inn(1, iter([2, 2, 2])) and bool(inn(3, [2, 2, 3])))
    ys = [EqItem(r.randrange(2), j) for j in range(r.randrange(5))]
    eqv(bool(allsame(mk(r, ys))), all(y == ys[0] for y in ys), "allsame", ys=ys)
    part = [r.randrange(4) for _ in range(r.randrange(3))]
    eqv(bool(subset(mk(r, part), xs)), all(p in xs for p in part), "subset", part=part, xs=xs)
    truthy = find(lambda y: y == 0, iter([5, 0, 1])); eqv(truthy, 0, "find returns falsy item")
    eqv(find(lambda y: True, [None, 3], default=7), None)


@D.case()
def predicates_truthiness(r):
    xs = [0, 1, 2, "", "a", None, [], [0]]
    a, b = partition(lambda x: x, iter(xs)); eq(list(a), [0, "", None, []]); eq(list(b), [1, 2, "a", [0]])
    eq(find(lambda x: x, iter(xs)), 1)


@D.case()
def powersets(r):
    for n in range(0, 8):
        xs = items(n)
        for kind in ("list", "src"):
            got = [tuple(ids(t)) for t in powerset(mk(r, xs, (kind,)))]
            want = []
            for m in range(1, 2 ** n):
                pass
            # documented order: when item j arrives: (xj,), then earlier subsets in order extended by xj
            bag = []
            for x in xs:
                new = [(x,)] + [c + (x,) for c in bag]
                want += new
                bag = bag + new
            eq(got, [tuple(ids(t)) for t in want], "powerset", n=n)
            eqv(len(set(got)), 2 ** n - 1)


@D.case(100)
def tolerance(r):
    # converging input
    seq = [r.choice([1, 2, 5, 10]) * (2 ** (8 - k)) for k in range(8)] + [1, 1, 1, 7]
    tol = r.choice([0, 1, 3, 20, 300])
    want = []
    for a, b in zip(seq, seq[1:]):
        want.append(a)
        if abs(a - b) <= tol:
            want.append(b)
            break
    eq(list(within(tol, mk(r, seq))), want, "within", seq=seq, tol=tol)


@D.case(60)
def iteration(r):
    n = r.randrange(0, 8)
    f = lambda x: ("f", x)
    want, x = [], "x"
    for _ in range(n):
        want.append(x); x = f(x)
    eq(list(take(n, iterate1(f, "x"))), want, "iterate1")
    calls = []
    def g(a, b, *, c):
        calls.append((a, b, c))
        return Values(b, a + b, c=c + 1)
    got = list(take(n, iterate(g, 1, 1, c=0)))
    a, b, c = 1, 1, 0
    for v in got:
        check(v.rets == (a, b) and dict(v.kwrets) == {"c": c}, "iterate", v=v, want=(a, b, c))
        a, b, c = b, a + b, c + 1
    eqv(len(got), n); eqv(len(calls), max(0, n - 1), "iterate calls the function once per step")
    raises(TypeError, lambda: list(take(2, iterate(lambda x: x, 1))))
    ff = []
    list(take(n, iterate1(lambda x: ff.append(x) or x + 1, 0)))
    eq(ff, list(range(max(0, n - 1))), "iterate1 calls the function once per step")


if __name__ == "__main__":
    D.main()

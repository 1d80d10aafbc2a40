from base import *
from unpythonic import (take, drop, split_at, unpack, tail, butlast, butlastn, first, second, nth, last, lastn, islice)
D = Driver("P05")
KINDS = ("list", "tuple", "iter", "gen", "src")


@D.case()
def boundaries(r):
    cnt = 0
    for m in range(0, 8):
        xs = items(m)
        for kind in KINDS:
            M = lambda: mk(r, xs, (kind,))
            for n in range(0, 10):
                same_items(take(n, M()), xs[:n], "take", n=n, m=m, kind=kind)
                same_items(drop(n, M()), xs[n:], "drop", n=n, m=m, kind=kind)
                a, b = split_at(n, M())
                same_items(a, xs[:n], "split_at, first part", n=n, m=m)
                same_items(b, xs[n:], "split_at, second part", n=n, m=m)
                a, b = split_at(n, M())
                same_items(b, xs[n:], "split_at, second part read first", n=n, m=m)
                same_items(a, xs[:n], "split_at, first part read last", n=n, m=m)
                a, b = split_at(n, M())
                ga, gb = [], []
                a, b = iter(a), iter(b)
                for _ in range(m + 2):
                    ga += list(itertools.islice(a, 1)); gb += list(itertools.islice(b, 1))
                same_items(ga, xs[:n], "split_at interleaved", n=n, m=m); same_items(gb, xs[n:], "split_at interleaved", n=n, m=m)
                dflt = Item("default")
                same(nth(n, M(), default=dflt), xs[n] if n < m else dflt, "nth", n=n, m=m)
                same(nth(n, M()), xs[n] if n < m else None, "nth", n=n, m=m)
                same_items(lastn(n, M()), xs[max(0, m - n):], "lastn", n=n, m=m)
                same_items(butlastn(n, M()), xs[:max(0, m - n)], "butlastn", n=n, m=m)
                fv = Item("fill")
                for k in [None] + list(range(0, 10)):
                    *got, tl = unpack(n, M(), k=k, fillvalue=fv)
                    check(type(unpack(n, M(), k=k)) is tuple, "unpack returns a tuple")
                    same_items(got, xs[:n] + [fv] * (n - m), "unpack, items", n=n, m=m, k=k)
                    kk = n if k is None else k
                    same_items(tl, xs[kk:] if m >= n else [], "unpack, tail", n=n, m=m, k=k, kind=kind)
                    cnt += 1
            d = Item("default")
            same(first(M(), default=d), xs[0] if m else d, "first")
            same(second(M(), default=d), xs[1] if m > 1 else d, "second")
            same(last(M(), default=d), xs[-1] if m else d, "last")
            same(first(M()), xs[0] if m else None); same(second(M()), xs[1] if m > 1 else None); same(last(M()), xs[-1] if m else None)
            same_items(tail(M()), xs[1:], "tail", m=m)
            same_items(butlast(M()), xs[:-1], "butlast", m=m)
            same_items(drop(None, M()), [], "drop all", m=m)
            *got, tl = unpack(2, M()); same_items(got, (xs + [None, None])[:2])
            cnt += 1
    return cnt


@D.case()
def falsy_items(r):
    """Items whose truth value is False, None items, equal items: selection is positional."""
    class F:
        def __bool__(self):
            return False
        def __len__(self):
            return 0
    for xs in ([None] * 4, [0, 0, 0], [F(), F(), F(), F()], [None, False, 0, "", (), []], [[], [], []], [(), 0]):
        m = len(xs)
        for n in range(0, m + 2):
            d = Item("d")
            for kind in ("list", "src"):
                M = lambda: mk(r, xs, (kind,))
                same_items2 = lambda got, want, msg: (lambda g, w: check(len(g) == len(w) and all(a is b for a, b in zip(g, w)), msg, got=g, want=w, n=n))(list(got), list(want))
                same_items2(take(n, M()), xs[:n], "take"); same_items2(drop(n, M()), xs[n:], "drop")
                same(nth(n, M(), default=d), xs[n] if n < m else d, "nth")
                same_items2(lastn(n, M()), xs[max(0, m - n):], "lastn"); same_items2(butlastn(n, M()), xs[:max(0, m - n)], "butlastn")
                *got, tl = unpack(n, M(), fillvalue=d)
                same_items2(got, xs[:n] + [d] * (n - m), "unpack"); same_items2(tl, xs[n:], "unpack tail")
        same(last(M(), default=d), xs[-1], "last"); same(first(M(), default=d), xs[0], "first"); same(second(M(), default=d), xs[1], "second")
        same_items2(butlast(M()), xs[:-1], "butlast"); same_items2(tail(M()), xs[1:], "tail")


@D.case(300)
def larger(r):
    m = r.choice([r.randrange(50), 100, 1000])
    xs = items(m)
    n = r.choice([0, 1, m - 1 if m else 0, m, m + 1, r.randrange(m + 5)])
    M = lambda: mk(r, xs)
    same_items(take(n, M()), xs[:n]); same_items(drop(n, M()), xs[n:])
    same_items(lastn(n, M()), xs[max(0, m - n):]); same_items(butlastn(n, M()), xs[:max(0, m - n)])
    a, b = split_at(n, M()); same_items(a, xs[:n]); same_items(b, xs[n:])
    k = r.randrange(m + 5)
    *got, tl = unpack(n, M(), k=k)
    same_items(got, xs[:n] + [None] * (n - m)); same_items(tl, xs[k:] if m >= n else [], "unpack tail", n=n, m=m, k=k)


@D.case()
def continues_same_iterator(r):
    """Results built on a one-shot iterator leave the rest of it in place."""
    for m in range(0, 7):
        for n in range(0, 8):
            xs = items(m)
            it = iter(xs); same_items(take(n, it), xs[:n]); same_items(it, xs[n:], "rest after take", n=n, m=m)
            it = Src(xs); d = drop(n, it); same_items(itertools.islice(d, 1), xs[n:n + 1]); same_items(it, xs[n + 1:], "rest after drop", n=n, m=m)
            it = Src(xs); nth(n, it); same_items(it, xs[n + 1:], "rest after nth", n=n, m=m)
            it = Src(xs); *_, t = unpack(n, it)
            if m >= n:
                same_items(it, xs[n:], "rest after unpack")


@D.case()
def errors(r):
    for f in (take, drop, split_at, nth, lambda n, x: unpack(n, x)):
        raises(TypeError, lambda: f("1", [1, 2])); raises(TypeError, lambda: f(1.0, [1, 2])); raises(ValueError, lambda: f(-1, [1, 2]))
        if f is not drop:
            raises(TypeError, lambda: f(None, [1]))
    raises(TypeError, lambda: unpack(1, [1], k="a")); raises(ValueError, lambda: unpack(1, [1], k=-1))
    src = Src(items(3))
    for f in (take, drop, split_at, nth):
        raises(ValueError, lambda: f(-1, src))
    eqv(src.pulled, 0, "rejected call consumed input")


@D.case()
def islice_all(r):
    cnt = 0
    B = [None] + list(range(-7, 8))
    for m in range(0, 6):
        xs = items(m)
        for a in B:
            for b in B:
                for st in (None, 1, 2, 3):
                    kind = KINDS[cnt % len(KINDS)]
                    s = slice(a, b, st)
                    o = outcome(lambda: list(islice(mk(r, xs, (kind,)))[s]))
                    if o[0] != "ok":
                        fail("islice raised", error=o[2], s=s, m=m, kind=kind)
                    same_items(o[1], xs[s], "islice", s=s, m=m, kind=kind)
                    cnt += 1
        for k in range(-8, 9):
            for kind in KINDS:
                got = islice(mk(r, xs, (kind,)))[k]
                same(got, xs[k] if -m <= k < m else None, "islice single index", k=k, m=m)
    raises(TypeError, lambda: islice([1, 2])[0, 1])
    raises(ValueError, lambda: list(islice([1, 2, 3])[::-1]))
    return cnt


if __name__ == "__main__":
    D.main()

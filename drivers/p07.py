from base import *
from unpythonic import (take, drop, split_at, unpack, tail, butlast, butlastn, first, second, nth, window, chunked, interleave, pad, scons, uniqify, uniq,
                        flatten, flatten1, flatten_in, partition, map as umap, map_longest, flatmap, powerset, within, inn, iindex, find, iterate, iterate1,
                        scanl, scanl1, unfold, unfold1, running_minmax, islice, Values)
D = Driver("P07")
N = 14


def lazily(name, mkit, srcs, creation, need, outputs=N, check_out=None, **ctx):
    """mkit() -> iterator over instrumented sources; need(k): max items pulled from each source after k outputs."""
    it = mkit()
    for i, s in enumerate(srcs):
        c = creation if isinstance(creation, int) else creation[i]
        check(s.pulled <= c, f"{name}: creating the iterator consumed input", pulled=s.pulled, allowed=c, source=i, **ctx)
    it = iter(it)
    for k in range(1, outputs + 1):
        try:
            x = next(it)
        except StopIteration:
            break
        nd = need(k)
        for i, s in enumerate(srcs):
            a = nd if isinstance(nd, int) else nd[i]
            check(s.pulled <= a, f"{name}: producing output {k} over-consumed the input", pulled=s.pulled, allowed=a, source=i, **ctx)
        if check_out:
            check_out(k, x)


@D.case()
def basic(r):
    for n in range(0, 6):
        s = naturals(); lazily("take", lambda: take(n, s), [s], 0, lambda k: k, n=n)
        s = naturals(); list(take(n, s)); check(s.pulled <= n, "exhausting take over-consumed", n=n, pulled=s.pulled)
        s = naturals(); lazily("drop", lambda: drop(n, s), [s], n, lambda k: n + k, n=n)
        s = naturals(); nth(n, s); check(s.pulled <= n + 1, "nth over-consumed", pulled=s.pulled, n=n)
        s = naturals()
        a, b = split_at(n, s); check(s.pulled <= n, "split_at creation", pulled=s.pulled, n=n)
        list(a); check(s.pulled <= n, "split_at first part", pulled=s.pulled, n=n)
        for k in range(1, 4):
            next(b); check(s.pulled <= n + k, "split_at second part", pulled=s.pulled, n=n, k=k)
        for kk in range(0, 8):
            s = naturals(); *_, t = unpack(n, s, k=kk)
            check(s.pulled <= max(n, kk), "unpack over-consumed", pulled=s.pulled, n=n, k=kk)
            next(t); check(s.pulled <= max(n, kk + 1), "unpack tail over-consumed", pulled=s.pulled, n=n, k=kk)
        s = naturals(); lazily("butlastn", lambda: butlastn(n, s), [s], 0, lambda k: n + k, n=n)
        s = naturals(); lazily("pad", lambda: pad(n, None, s), [s], 0, lambda k: k)
        if n >= 2:
            s = naturals(); lazily("window", lambda: window(n, s), [s], n, lambda k: n + k - 1, n=n)
            s = naturals(); ch = chunked(n, s); check(s.pulled == 0, "chunked creation consumed")
            for j in range(4):
                c = iter(next(ch))
                check(s.pulled <= j * n + 1, "chunked: getting a chunk consumed more than its first item", pulled=s.pulled, n=n, j=j)
                for i in range(n):
                    eqv(next(c), j * n + i); check(s.pulled <= j * n + i + 1, "chunk over-consumed", pulled=s.pulled, n=n, j=j, i=i)
                raises(StopIteration, lambda: next(c)); check(s.pulled <= (j + 1) * n, "end of chunk consumed the next item", pulled=s.pulled, n=n)
    s = naturals(); lazily("tail", lambda: tail(s), [s], 1, lambda k: 1 + k)
    s = naturals(); lazily("butlast", lambda: butlast(s), [s], 0, lambda k: 1 + k)
    s = naturals(); first(s); check(s.pulled <= 1, "first over-consumed")
    s = naturals(); second(s); check(s.pulled <= 2, "second over-consumed")
    s = naturals(); lazily("scons", lambda: scons("x", s), [s], 0, lambda k: k - 1)
    s = naturals(); lazily("map", lambda: umap(lambda x: x, s), [s], 0, lambda k: k)
    s, t = naturals(), naturals(); lazily("map2", lambda: umap(lambda x, y: x, s, t), [s, t], 0, lambda k: k)
    s, t = naturals(), naturals(); lazily("map_longest", lambda: map_longest(lambda x, y: x, s, t), [s, t], 0, lambda k: k)
    s = naturals(); lazily("flatmap", lambda: flatmap(lambda x: (x, x, x), s), [s], 0, lambda k: (k + 2) // 3)
    s = naturals(); lazily("powerset", lambda: powerset(s), [s], 0, lambda k: k.bit_length())
    s = Src(lambda k: 2.0 ** -k, infinite=True); lazily("within", lambda: within(0.01, s), [s], 0, lambda k: min(k + 1, 8))
    s = naturals(); lazily("islice", lambda: islice(s)[3:20:2], [s], 0, lambda k: 3 + 2 * (k - 1) + 1)
    s = naturals(); islice(s)[4]; check(s.pulled <= 5, "islice index over-consumed", pulled=s.pulled)


@D.case(100)
def dedup(r):
    xs = [r.randrange(5) for _ in range(12)] + list(range(5, 40))
    seen, firsts = set(), []
    for i, x in enumerate(xs):
        if x not in seen:
            seen.add(x); firsts.append(i + 1)
    runs = [i + 1 for i, x in enumerate(xs) if i == 0 or xs[i - 1] != x]
    for kw in ({}, {"key": lambda x: x}):
        s = Src(xs); lazily("uniqify", lambda: uniqify(s, **kw), [s], 0, lambda k: firsts[k - 1], xs=xs)
        s = Src(xs); lazily("uniq", lambda: uniq(s, **kw), [s], 0, lambda k: runs[k - 1], xs=xs)
    nested = [[j] * r.randrange(0, 3) if r.randrange(2) else j for j in range(20)]
    owner = []
    for j, e in enumerate(nested):
        owner += [j + 1] * (len(e) if isinstance(e, list) else 1)
    for f in (flatten, flatten_in, lambda s: flatten1(s, lambda e: True)):
        s = Src(nested); lazily("flatten", lambda: f(s), [s], 0, lambda k: owner[k - 1], nested=nested)
    nl = [[j] * r.randrange(0, 3) for j in range(20)]; ow = [j + 1 for j, e in enumerate(nl) for _ in e]
    s = Src(nl); lazily("flatten1", lambda: flatten1(s), [s], 0, lambda k: ow[k - 1], outputs=min(N, len(ow)))


@D.case(100)
def interleaved(r):
    m = r.randrange(1, 5)
    srcs = [naturals() for _ in range(m)]
    lazily("interleave", lambda: interleave(*srcs), srcs, 0, lambda k: [(k + m - 1 - i) // m for i in range(m)])


@D.case(100)
def predicates(r):
    x = r.randrange(0, 30)
    s = naturals(); find(lambda y: y == x, s); check(s.pulled <= x + 1, "find over-consumed", pulled=s.pulled, x=x)
    s = naturals(); iindex(x, s); check(s.pulled <= x + 1, "iindex over-consumed", pulled=s.pulled, x=x)
    s = naturals(); inn(x, s); check(s.pulled <= max(2, x + 1), "inn over-consumed", pulled=s.pulled, x=x)
    s = Src(lambda k: 2 * k, infinite=True); inn(2 * x + 1, s); check(s.pulled <= max(3, x + 2), "inn (absent) over-consumed", pulled=s.pulled, x=x)
    s = naturals()
    a, b = partition(lambda y: y % 3 == 0, s); check(s.pulled == 0, "partition creation consumed")
    ka = kb = 0
    for _ in range(12):
        if r.randrange(2):
            next(a); ka += 1
        else:
            next(b); kb += 1
        need = max(0 if not ka else (ka - 1) // 2 * 3 + (ka - 1) % 2 + 2, 0 if not kb else 3 * (kb - 1) + 1)
        check(s.pulled <= need, "partition over-consumed", pulled=s.pulled, need=need, ka=ka, kb=kb)


@D.case()
def functions_called_lazily(r):
    for k in range(0, 7):
        calls = []
        list(take(k, iterate1(lambda x: calls.append(x) or x + 1, 0))); check(len(calls) <= max(0, k - 1), "iterate1 called ahead", k=k, calls=calls)
        calls = []
        list(take(k, iterate(lambda x: calls.append(x) or Values(x + 1), 0))); check(len(calls) <= max(0, k - 1), "iterate called ahead", k=k, calls=calls)
        calls = []
        list(take(k, unfold1(lambda x: calls.append(x) or (x, x + 1), 0))); check(len(calls) <= k, "unfold1 called ahead", k=k, calls=calls)
        calls = []
        list(take(k, unfold(lambda x: calls.append(x) or Values(x, x + 1), 0))); check(len(calls) <= k, "unfold called ahead", k=k, calls=calls)
        calls = []
        s = naturals(); list(take(k, umap(lambda x: calls.append(x) or x, s))); check(len(calls) <= k, "map called ahead")
    s = naturals(); lazily("scanl", lambda: scanl(lambda x, a: a + x, 0, s), [s], 0, lambda k: k - 1)
    s, t = naturals(), naturals(); lazily("scanl2", lambda: scanl(lambda x, y, a: a + x, 0, s, t), [s, t], 0, lambda k: k - 1)
    s, t = naturals(), naturals(); lazily("scanl2 longest", lambda: scanl(lambda x, y, a: a + x, 0, s, t, longest=True), [s, t], 0, lambda k: k - 1)
    s = naturals(); lazily("scanl1", lambda: scanl1(lambda x, a: a + x, s), [s], 1, lambda k: k)
    s = naturals(); lazily("scanl1 init", lambda: scanl1(lambda x, a: a + x, s, 5), [s], 0, lambda k: k - 1)
    s = naturals(); lazily("running_minmax", lambda: running_minmax(s), [s], 1, lambda k: k)


@D.case()
def finite_inputs_not_repulled(r):
    """Once output has ended, nothing more is pulled; a finite source is not read past its end repeatedly."""
    for m in range(0, 6):
        for n in range(0, 6):
            s = Src(items(m)); it = take(n, s); list(it); p = s.pulled; list(it)
            check(s.pulled == p or p < n, "take continued after its end")
            if n >= 2:
                s = Src(items(m)); it = window(n, s); list(it); list(it)
                check(s.pulled <= m)


if __name__ == "__main__":
    D.main()

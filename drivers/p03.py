from base import *
from collections import namedtuple, deque
from collections.abc import Sequence
from unpythonic import fupdate, fup, ShadowedSequence, in_slice, index_in_slice, frozendict
D = Driver("P03")
RANGE = range(0, 7)


def slices(n):
    """All in-domain slices of a length-n sequence: -n <= start, stop <= n, or None."""
    bounds = [None] + list(range(-n, n + 1))
    for a in bounds:
        for b in bounds:
            for st in (None, 1, 2, 3, n + 1, -1, -2, -3, -(n + 1)):
                yield slice(a, b, st)


def spec_positions(s, n):
    return list(range(n))[s]


def spec_update(seq, ix, v):
    lst = list(seq)
    if isinstance(ix, slice):
        pos = spec_positions(ix, len(lst))
        vs = list(v)
        for p, x in zip(pos, vs):
            lst[p] = x
    else:
        lst[ix] = v
    return lst


@D.case()
def slice_arithmetic(r):
    cnt = 0
    for n in range(1, 7):
        for s in slices(n):
            pos = spec_positions(s, n)
            for i in list(range(-n, n)):
                w = i % n
                got = in_slice(i, s, n)
                want = w in pos
                if bool(got) != want:
                    fail("slice membership", i=i, s=s, n=n, got=got, want=want)
                gi = index_in_slice(i, s, n)
                wi = pos.index(w) if want else None
                if gi != wi or (gi is None) != (wi is None):
                    fail("index within slice", i=i, s=s, n=n, got=gi, want=wi)
                cnt += 1
        for k in range(-n, n):
            for i in range(-n, n):
                if bool(in_slice(i, k, n)) != (i % n == k % n):
                    fail("index membership", i=i, k=k, n=n)
    return cnt


@D.case(300)
def slice_arithmetic_big(r):
    n = r.choice([1, 2, 10, 97, 1000, 10**6, 10**12])
    b = lambda: r.choice([None, 0, n, -n, -1, r.randrange(-n, n + 1)])
    st = r.choice([None, 1, 2, 7, n, n + 3, -1, -2, -7, -n, r.randrange(1, n + 1), -r.randrange(1, n + 1)])
    s = slice(b(), b(), st)
    rg = range(n)[s]
    for i in [0, n - 1, -1, -n, r.randrange(-n, n)] + [rg[j] for j in (0, len(rg) // 2, len(rg) - 1)] if len(rg) else [0, n - 1, -n, r.randrange(-n, n)]:
        w = i % n if i < 0 else i
        want = w in rg
        check(bool(in_slice(i, s, n)) == want, "slice membership", i=i, s=s, n=n)
        gi = index_in_slice(i, s, n)
        eqv(gi, rg.index(w) if want else None, "index within slice", i=i, s=s, n=n)


@D.case()
def slice_errors(r):
    raises(TypeError, lambda: in_slice(0, "x", 3))
    raises(TypeError, lambda: in_slice("0", slice(None), 3))
    raises(ValueError, lambda: in_slice(0, slice(None, None, 0), 3))
    raises(ValueError, lambda: in_slice(-1, slice(0, 1, 1)))
    raises(IndexError, lambda: in_slice(5, slice(0, 1, 1), 3))
    raises(ValueError, lambda: in_slice(0, slice(None), 0))
    raises(TypeError, lambda: in_slice(0, slice(None), "3"))
    check(in_slice(5, slice(3, 8, 2)) and not in_slice(4, slice(3, 8, 2)), "no length needed for nonnegative bounds")
    eqv(index_in_slice(5, slice(3, 8, 2)), 1)


class Seq(Sequence):
    def __init__(self, xs=()):
        self._d = tuple(xs)
    def __len__(self):
        return len(self._d)
    def __getitem__(self, k):
        return Seq(self._d[k]) if isinstance(k, slice) else self._d[k]
    def __eq__(self, o):
        return isinstance(o, Seq) and self._d == o._d
    def __repr__(self):
        return f"Seq{self._d}"


@D.case()
def all_slice_updates(r):
    cnt = 0
    for n in range(0, 6):
        for s in (slices(n) if n else [slice(None), slice(0, 0), slice(None, None, -1)]):
            pos = spec_positions(s, n)
            for kind in ("tuple", "longer", "iter", "list"):
                base = items(n)
                vs = [Item(f"n{j}") for j in range(len(pos) + (2 if kind == "longer" else 0))]
                if kind == "iter" and (s.step or 1) < 0:
                    continue   # documented: one-shot replacement iterables need a forward slice
                v = {"tuple": tuple(vs), "longer": tuple(vs), "iter": iter(vs), "list": list(vs)}[kind]
                tgt = tuple(base) if cnt % 2 else list(base)
                got = fupdate(tgt, s, v)
                want = spec_update(base, s, vs)
                check(type(got) is type(tgt), "type changed")
                same_items(got, want, "functional slice update", n=n, s=s, kind=kind, base=base)
                same_items(tgt, base, "original changed", n=n, s=s)
                check(got is not tgt or (n == 0 and type(tgt) is tuple), "must be a new object")
                cnt += 1
        for k in range(-n, n):
            base = items(n); x = Item("x")
            got = fupdate(tuple(base), k, x)
            same_items(got, spec_update(base, k, x), "functional item update", n=n, k=k)
            got = fup(list(base))[k] << x
            check(type(got) is list, "type changed")
            same_items(got, spec_update(base, k, x), "fup item update", n=n, k=k)
            cnt += 1
    return cnt


@D.case(300)
def sequence_of_updates(r):
    n = r.randrange(1, 9)
    base = items(n)
    cls = r.choice([tuple, list, Seq])
    tgt = cls(base)
    ixs, vals, want = [], [], list(base)
    for _ in range(r.randrange(0, 5)):
        if r.randrange(2):
            k = r.randrange(-n, n); x = Item(r.random())
            ixs.append(k); vals.append(x)
            want = spec_update(want, k, x)
        else:
            b = lambda: r.choice([None, r.randrange(-n, n + 1)])
            s = slice(b(), b(), r.choice([None, 1, 2, 3, -1, -2]))
            vs = [Item((r.random(), j)) for j in range(len(spec_positions(s, n)) + r.randrange(2))]
            ixs.append(s); vals.append(r.choice([tuple, list])(vs))
            want = spec_update(want, s, vs)
    c = r.choice([list, tuple])
    got = fupdate(tgt, c(ixs), c(vals))
    check(type(got) is cls, "type changed", got=got)
    same_items(got, want, "sequence of functional updates", ixs=ixs, vals=vals, base=base)
    same_items(tgt, base, "original changed")


@D.case()
def namedtuples_and_mappings(r):
    P = namedtuple("P", "a b c")
    p = P(1, 2, 3)
    eq(fupdate(p, 1, 20), P(1, 20, 3))
    eq(fupdate(p, slice(0, 2), (8, 9)), P(8, 9, 3))
    eq(fupdate(p, [0, -1], [7, 9]), P(7, 2, 9))
    eq(p, P(1, 2, 3))
    d = {"a": 1, "b": [2]}
    e = fupdate(d, b=3, c=4)
    eq(e, {"a": 1, "b": 3, "c": 4}); eq(d, {"a": 1, "b": [2]})
    check(e is not d)
    f = frozendict(d)
    g = fupdate(f, a=9)
    check(type(g) is frozendict and dict(g) == {"a": 9, "b": [2]} and dict(f) == d, "frozendict update", g=g, f=f)
    x = fupdate(d); eq(x, d); check(x is not d, "copy expected")
    l = [1, 2]; m = fupdate(l); eq(m, l); check(m is not l)
    raises(ValueError, lambda: fupdate([1, 2], 0, 5, a=3))
    raises(TypeError, lambda: fup([1, 2])[0, 1] << 3)
    raises(IndexError, lambda: fupdate((1, 2, 3), slice(None), (1,)))
    raises(IndexError, lambda: fupdate((1, 2, 3), slice(1, None), (1,)))


@D.case(200)
def mapping_updates(r):
    keys = list("abcdef")
    d = {k: Item(k) for k in r.sample(keys, r.randrange(0, 6))}
    upd = {k: Item("n" + k) for k in r.sample(keys, r.randrange(1, 5))}
    before = dict(d)
    got = fupdate(d, **upd)
    want = dict(d); want.update(upd)
    eq(got, want); eq(d, before, "original mapping changed")
    f = frozendict(d)
    g = fupdate(f, **upd)
    eq(dict(g), want); eq(dict(f), before, "original frozendict changed")


@D.case(400)
def shadowed_sequence(r):
    n = r.randrange(1, 8)
    base = items(n)
    tgt = r.choice([tuple, list])(base)
    if r.randrange(2):
        ix = r.randrange(-n, n); v = Item("v"); want = spec_update(base, ix, v)
        oneshot = False
    else:
        b = lambda: r.choice([None, r.randrange(-n, n + 1)])
        ix = slice(b(), b(), r.choice([None, 1, 2, 3, -1, -2, -3]))
        vs = [Item(("v", j)) for j in range(len(spec_positions(ix, n)))]
        want = spec_update(base, ix, vs)
        v = tuple(vs)
    sh = ShadowedSequence(tgt, ix, v)
    eqv(len(sh), n)
    same_items(list(sh), want, "iteration", ix=ix)
    same_items(list(sh), want, "second iteration", ix=ix)
    for k in range(-n, n):
        same(sh[k], want[k], "index", ix=ix, k=k)
    for _ in range(6):
        b = lambda: r.choice([None, r.randrange(-n - 2, n + 3)])
        s = slice(b(), b(), r.choice([None, 1, 2, -1, -2, 5]))
        got = sh[s]
        check(type(got) is type(tgt), "slice type", got=got)
        same_items(got, want[s], "slice", ix=ix, s=s)
    raises(IndexError, lambda: sh[n])
    raises(IndexError, lambda: sh[-n - 1])
    raises(TypeError, lambda: sh[0, 1])
    check(sh == want and not (sh == want + [0]), "equality")
    same_items(tgt, base, "shadowed original changed")
    # stacking
    k2 = r.randrange(-n, n); x2 = Item("x2")
    sh2 = ShadowedSequence(sh, k2, x2)
    same_items(list(sh2), spec_update(want, k2, x2), "stacked", ix=ix, k2=k2)
    # no replacement at all
    same_items(list(ShadowedSequence(tgt)), base)


@D.case()
def shadowed_errors(r):
    raises(TypeError, lambda: ShadowedSequence((1, 2), "a", 3))
    raises(TypeError, lambda: ShadowedSequence(iter((1, 2)), 0, 3))
    raises(TypeError, lambda: ShadowedSequence((1, 2), slice(None), 3))
    s = ShadowedSequence((1, 2, 3, 4), slice(1, 3), iter((20, 30)))
    eq(list(s), [1, 20, 30, 4])
    from unpythonic import imemoize
    m = imemoize(iter((20, 30, 40)))()
    s = ShadowedSequence((1, 2, 3, 4), slice(1, 3), m)
    eq(list(s), [1, 20, 30, 4]); eq(list(s), [1, 20, 30, 4], "memoized replacement, second reading")


if __name__ == "__main__":
    D.main()

from base import *
from unpythonic.gtco import gtco, gtrampolined
D = Driver("P31")


def tk(n, it):
    out = []
    for _ in range(n):
        try: out.append(next(it))
        except StopIteration: break
    return out


@D.case(1500)
def chains(r):
    n = r.randint(1, 8)
    segs = [items(r.choice([0, 0, 1, 2, 3])) for _ in range(n)]
    tailkind = r.randrange(6)
    tail = items(3)
    pulled = []
    fault = (r.randrange(n)) if r.random() < .25 else None
    style = [r.randrange(3) for _ in range(n)]
    E = r.choice([TypeError, ValueError, AttributeError, KeyError])
    def seg(i):
        for j, x in enumerate(segs[i]):
            pulled.append((i, j)); yield x
        if i == fault: raise E("link")
        if i + 1 < n: return nxt(i + 1)
        if tailkind == 0: return None
        if tailkind == 1: return list(tail)
        if tailkind == 2: return tuple(tail)
        if tailkind == 3: return iter(tail)
        if tailkind == 4: return Src(tail)
        return BadIter(tail, E) if fault is None else None
    tseg = gtrampolined(seg)
    def nxt(i): return seg(i) if style[i] == 0 else tseg(i)
    m = n if fault is None else fault + 1
    want = [x for s_ in segs[:m] for x in s_]
    err = fault is not None
    if fault is None and tailkind in (1, 2, 3, 4): want += tail
    if fault is None and tailkind == 5: want += tail; err = True
    for start in (lambda: gtco(seg(0)), lambda: iter(tseg(0)), lambda: iter(gtrampolined(seg)(0))):
        del pulled[:]
        it = iter(start())
        eq(pulled, [], "not lazy")
        got = []
        flat = [(i, j) for i in range(m) for j in range(len(segs[i]))]
        ended = None
        while True:
            try: got.append(next(it))
            except StopIteration: ended = "stop"; break
            except E as e: ended = "err"; break
            k = min(len(got), len(flat)); eq(pulled, flat[:k], "pulled ahead")
        same_items(got, want, "items of the chain", segs=[len(s_) for s_ in segs], tailkind=tailkind, fault=fault)
        eq(ended, "err" if err else "stop", "end of the chain", tailkind=tailkind, fault=fault, E=E)


class BadIter:
    def __init__(self, xs, E): self.xs, self.E = xs, E
    def __iter__(self):
        yield from self.xs
        raise self.E("tail")


@D.case()
def long(r):
    @gtrampolined
    def a(k):
        yield k
        if k < 20000: return b(k + 1)
    @gtrampolined
    def b(k):
        if k % 3: yield k
        if k < 20000: return a(k + 1)
    got = list(a(0)); want = [k for k in range(20001) if k % 2 == 0 or k % 3]; eq(got, want, "long mutual chain")
    def self_(k):
        yield k
        return self_(k + 1)
    eq(tk(20000, gtco(self_(0))), list(range(20000)), "long self chain")
    depths = set()
    def d(k):
        f, n = sys._getframe(), 0
        while f: f, n = f.f_back, n + 1
        depths.add(n); yield k
        if k < 200: return d(k + 1)
    list(gtco(d(0))); eq(len(depths), 1, "stack grows along the chain")
    return 4


@D.case(50)
def last_value(r):
    """A final return value that cannot be iterated is passed through as the return value; errors other than that reach the consumer."""
    class E(Exception): pass
    class Bad:
        def __iter__(self): raise E("iter")
    xs = items(r.randint(0, 3)); v = r.choice([None, 42, Item("v"), Bad(), object])
    def g(): yield from xs; return v
    for start in (lambda: gtco(g()), lambda: iter(gtrampolined(g)())):
        it = start(); got = []
        try:
            while True: got.append(next(it))
        except StopIteration as s_: check(not isinstance(v, Bad), "error swallowed"); check(s_.value is v, "return value of the chain", got=s_.value, want=v)
        except E: check(isinstance(v, Bad))
        same_items(got, xs)


if __name__ == "__main__":
    D.main()

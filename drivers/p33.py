from base import *
import collections, queue, typing
from unpythonic.misc import Popper, CountingIterator, slurp, getattrrec, setattrrec, pack, namelambda, safeissubclass, timer
D = Driver("P33")


@D.case(1500)
def popping(r):
    kind = r.choice([list, collections.deque])
    c = kind(items(r.randint(0, 6))); model = list(c)
    p = Popper(c); it = iter(p); same(it, p)
    nxt = [100]
    for _ in range(r.randint(0, 25)):
        op = r.randrange(5)
        if op <= 2:
            if model: same(next(it), model.pop(0), "next item")
            else: raises(StopIteration, lambda: next(it), "no end")
        elif op == 3:
            x = Item(nxt[0]); nxt[0] += 1; c.append(x); model.append(x)
        elif model:
            i = r.randrange(len(model)); del model[i]; del c[i]
        same_items(c, model, "container contents")
    out = list(it); same_items(out, model, "rest"); eq(len(c), 0)
    # appending during a for loop
    c = kind(items(3)); seen = []
    for x in Popper(c):
        seen.append(x)
        if len(seen) < 6: c.append(Item(len(seen)))
        eq(len(c), (3 + min(len(seen), 5)) - len(seen))
    eq(len(seen), 8)
    # falsy items
    c = kind([0, None, "", [], 0]); same_items(list(Popper(c)), [0, None, "", [], 0], "falsy items")
    # popping after the end picks up again
    c = kind(); p = Popper(c); raises(StopIteration, lambda: next(p)); c.append(1); eq(next(p), 1)


@D.case(800)
def counting(r):
    xs = items(r.randint(0, 8)); src = Src(xs); it = CountingIterator(src); eq(it.count, 0); same(iter(it), it); eq(src.pulled, 0)
    for i in range(len(xs)): same(next(it), xs[i]); eq(it.count, i + 1, "count"); eq(src.pulled, i + 1)
    for _ in range(3): raises(StopIteration, lambda: next(it)); eq(it.count, len(xs), "count after the end")
    it = CountingIterator(mk(r, [None, 0, ""])); eq(list(it), [None, 0, ""]); eq(it.count, 3)
    def g():
        yield 1
        raise KeyError("x")
    it = CountingIterator(g()); next(it); raises(KeyError, lambda: next(it)); eq(it.count, 1, "count after an exception")
    k = r.randint(0, 5); it = CountingIterator(naturals())
    for _ in range(k): next(it)
    eq(it.count, k)


@D.case(500)
def slurping(r):
    Q = r.choice([queue.Queue, queue.LifoQueue, queue.PriorityQueue, queue.SimpleQueue])
    xs = list(range(r.randint(0, 9))) if Q is queue.PriorityQueue else items(r.randint(0, 9))
    if r.random() < .2 and Q is not queue.PriorityQueue: xs += [None, 0, ""]
    q, q2 = Q(), Q()
    for x in xs: q.put(x); q2.put(x)
    want = [q2.get() for _ in xs]
    same_items(slurp(q), want, "items"); check(q.empty()); eq(slurp(q), [])
    q = queue.Queue(maxsize=3)
    for i in range(3): q.put(i)
    eq(slurp(q), [0, 1, 2]); q.put(5, block=False)


@D.case(600)
def attrs(r):
    n = r.randint(1, 6)
    class O: pass
    objs = [O() for _ in range(n)]
    for a, b in zip(objs, objs[1:]): a.link = b
    v = r.choice([Item("v"), None, 0]); objs[-1].link = v
    same(getattrrec(objs[0], "link"), v, "innermost value", n=n); raises(AttributeError, lambda: getattrrec(objs[0], "nope")); same(getattrrec(objs[0], "nope", 7), 7); same(getattrrec(objs[0], "link", 7), v)
    w = Item("w"); setattrrec(objs[0], "link", w)
    for i in range(n - 1): same(objs[i].link, objs[i + 1], "chain changed", i=i, n=n)
    same(objs[-1].link, w, "innermost holder"); o = O(); setattrrec(o, "fresh", 1); eq(o.fresh, 1)
    args = tuple(items(r.randint(0, 5))); eq(pack(*args), args)
    # naming
    f = lambda *a, **k: (a, k)
    g = namelambda("foo")(f); eq(g.__name__, "foo"); eq(g.__code__.co_name, "foo"); check(g.__qualname__.endswith(".foo")); eq(f.__name__, "<lambda>", "original renamed"); eq(g(1, b=2), ((1,), {"b": 2})); o = Item(0); same(namelambda("x")(o), o)
    cl = [10]; h = namelambda("clo")(lambda x, y=5: x + y + cl[0]); eq(h(1), 16)
    # safeissubclass agrees with issubclass where that is defined, and says no elsewhere
    for a in (int, bool, str, O, typing.List, 42, None, "x"):
        for b in (int, (int, str), object, 42, None, typing.List, typing.Sequence, (int, 42)):
            try: want = issubclass(a, b)
            except TypeError: want = False
            eq(safeissubclass(a, b), want, "safeissubclass", a=a, b=b)
    with timer() as t: x = 1
    check(t.dt >= 0)


@D.case(30)
def slurp_errors(r):
    class E(Exception): pass
    class Q(queue.Queue):
        def get(self, *a, **k):
            if self.n == 0: raise E
            self.n -= 1; return super().get(*a, **k)
    q = Q(); q.n = r.randint(0, 3)
    for i in range(5): q.put(i)
    raises(E, lambda: slurp(q), "an error of the queue is swallowed")


if __name__ == "__main__":
    D.main()

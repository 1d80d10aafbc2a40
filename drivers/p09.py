from base import *
from unpythonic import gmemoize, imemoize, fimemoize
D = Driver("P09")


class Boom(Exception):
    pass


def mkgen(r, kind, n, failat):
    """-> (memoized factory taking one key, log of computed (key, index), expected events, the exception object)"""
    log = []
    vals = {}
    exc = {}
    def val(key, i):
        return vals.setdefault((key, i), Item((key, i)))
    def body(key):
        for i in range(n):
            if i == failat:
                exc[key] = Boom(key)
                raise exc[key]
            log.append((key, i))
            yield val(key, i)
    if kind == "gmemoize":
        g = gmemoize(body)
    elif kind == "fimemoize":
        g = fimemoize(lambda key: body(key))
    else:
        made = {}
        def g(key):
            if key not in made:
                made[key] = imemoize(body(key))
            return made[key]()
    stop = min(n, failat) if failat is not None else n
    return g, log, val, exc, stop


def step(it):
    try:
        return ("item", next(it))
    except StopIteration:
        return ("end", None)
    except Boom as e:
        return ("boom", e)


@D.case(400)
def interleaved_readers(r):
    kind = r.choice(["gmemoize", "fimemoize", "imemoize"])
    n = r.randint(0, 6)
    failat = r.choice([None, None, r.randint(0, n)]) if n else None
    g, log, val, exc, stop = mkgen(r, kind, n, failat)
    fails = failat is not None and failat < n
    readers = []
    hist = []
    maxread = {}
    for _ in range(r.randint(1, 40)):
        key = r.choice([0, 0, 1, "k"])
        if not readers or r.random() < .25:
            before = list(log)
            readers.append([g(key), key, 0, False])
            hist.append(("new", key))
            check(log == before, "creating a reader computed an item", hist=hist)
        rd = r.choice(readers)
        it, key, pos, done = rd
        if done:
            continue
        nlog = len(log)
        ev = step(it)
        hist.append(("next", readers.index(rd), ev[0]))
        if pos < stop:
            check(ev[0] == "item" and ev[1] is val(key, pos), "wrong item", got=ev, pos=pos, hist=hist)
            rd[2] += 1
            maxread[key] = max(maxread.get(key, 0), rd[2])
            check(len([1 for k, i in log if k == key]) == maxread[key], "computed a number of items that differs from what was read", log=log, hist=hist)
        elif fails:
            check(ev[0] == "boom" and ev[1] is exc[key], "the generator's exception was not raised at its position as the same object", got=ev, hist=hist)
            rd[3] = True
        else:
            check(ev[0] == "end", "expected end of sequence", got=ev, hist=hist)
            rd[3] = True
    check(len(set(log)) == len(log), "an item was computed twice", log=log, hist=hist)


@D.case(100)
def index_and_slice(r):
    kind = r.choice(["gmemoize", "fimemoize", "imemoize"])
    n = r.randint(1, 6)
    g, log, val, exc, stop = mkgen(r, kind, n, None)
    a = g(0)
    m = r.randint(0, n)
    for _ in range(m):
        next(a)
    b = g(0)
    for x in (a, b):
        eq(len(x), m, "number of computed items")
        for i in range(-m - 2, m + 2):
            if -m <= i < m:
                same(x[i], val(0, i % m), "indexing")
            else:
                raises(IndexError, lambda: x[i], "out of range index")
        for _ in range(5):
            s = slice(*(r.choice([None] + list(range(-n - 1, n + 2))) for _ in range(2)), r.choice([None, 1, 2, -1, -2]))
            same_items(x[s], [val(0, i) for i in range(m)][s], "slicing", s=s)
    eq(len(log), m, "reading by index computed items")
    same_items(list(b), [val(0, i) for i in range(n)], "full read after indexing")
    eq(len(log), n)


@D.case(60)
def keyed_by_binding(r):
    runs = []
    @gmemoize
    def g(a, b=2, *c, d=4, **kw):
        runs.append((a, b, c, d, tuple(sorted(kw.items()))))
        yield from (a, b)
    calls = [lambda: g(1), lambda: g(1, 2), lambda: g(a=1), lambda: g(1, b=2), lambda: g(b=2, a=1), lambda: g(1, d=4), lambda: g(1, 2, d=4)]
    outs = [list(f()) for f in r.sample(calls, len(calls))]
    check(all(o == [1, 2] for o in outs)); eq(len(runs), 1, "equal arguments must share one run", runs=runs)
    calls = [lambda: g(1, x=1, y=2), lambda: g(1, y=2, x=1), lambda: g(y=2, a=1, x=1)]
    [list(f()) for f in r.sample(calls, 3)]
    eq(len(runs), 2, "keyword order made a difference", runs=runs)
    list(g(1, 3)); list(g(1, 2, 3)); list(g(1, d=5)); list(g(1, x=2, y=1)); list(g(2))
    eq(len(runs), 7, "different arguments were confused", runs=runs)


@D.case(60)
def threads(r):
    n = r.randint(1, 20)
    failat = r.choice([None, r.randint(0, n - 1)])
    log = []
    exc = Boom()
    inside = [0]
    def body(delay):
        for i in range(n):
            inside[0] += 1
            check(inside[0] == 1, "underlying generator entered twice at once")
            if i == failat:
                inside[0] -= 1
                raise exc
            if delay and i % 3 == 0:
                time.sleep(.0005)
            log.append(i)
            inside[0] -= 1
            yield i
    runs = []
    def body2(delay):
        runs.append(1)
        time.sleep(.0005)
        return body(delay)
    g = gmemoize(body2)
    barrier = threading.Barrier(4)
    def reader():
        barrier.wait(10)
        out = []
        it = g(True)
        while True:
            e = step(it)
            if e[0] != "item":
                return out, e
            out.append(e[1])
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        res = run_threads([reader] * 4)
    finally:
        sys.setswitchinterval(old)
    stop = n if failat is None else failat
    for x in res:
        check(x[0] == "ok", "reader failed", res=x)
        eq(x[1][0], list(range(stop)), "reader in a thread saw a different sequence")
        if failat is None:
            eq(x[1][1][0], "end")
        else:
            same(x[1][1][1], exc, "exception object differs between readers")
    eq(log, list(range(stop)), "items computed other than exactly once in order")
    eq(len(runs), 1, "two first calls made two generators")


@D.case(60)
def reader_suspended_inside(r):
    """One thread is inside the underlying generator (blocked) while another reads: they must get the same sequence."""
    n = r.randint(1, 5)
    at = r.randrange(n)
    gate, reached = threading.Event(), threading.Event()
    log = []
    def body():
        for i in range(n):
            if i == at:
                reached.set()
                gate.wait(10)
            log.append(i)
            yield i
    g = gmemoize(body)
    def first():
        return list(g())
    def second():
        reached.wait(10)
        it = g()
        threading.Timer(.002, gate.set).start()
        return list(it)
    a, b = run_threads([first, second])
    for x in (a, b):
        check(x[0] == "ok", "reader failed", res=x)
        eq(x[1], list(range(n)), "sequence differs")
    eq(log, list(range(n)), "items computed other than exactly once")


@D.case(50)
def baseexception_and_falsy(r):
    for e in (KeyboardInterrupt(), GeneratorExit(), SystemExit(3), ValueError(), StopAsyncIteration()):
        def body():
            yield None
            yield 0
            raise e
        g = gmemoize(body)
        for _ in range(3):
            it = g()
            got = [next(it), next(it)]
            check(got == [None, 0], "falsy items", got=got)
            try:
                next(it)
            except BaseException as x:
                same(x, e, "exception identity")
            else:
                fail("exception lost")


if __name__ == "__main__":
    D.main()

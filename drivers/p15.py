from base import *
from unpythonic import throw, catch, call_ec
D = Driver("P15")


class X(Exception): pass
TAGS = ["t1", "t2", "t3", None, 0, ""]


@D.case(10)
def odd_values(r):
    """any object can be thrown, also exceptions and escapes themselves"""
    from unpythonic.ec import Escape
    for val in (Escape(1, "t", True), StopIteration(3), KeyboardInterrupt(), X(), None, (), X, lambda: 1):
        @catch("t")
        def f(): throw(val, tag="t")
        same(f(), val, "thrown value", val=val)
        same(call_ec(lambda ec: [ec(val)]), val, "escape value", val=val)
        same(call_ec(lambda ec: val), val, "returned value", val=val)


def gen(r, d, necs):
    k = r.choice(["throw", "ret"] if d == 0 else ["catch", "catch", "catch", "ec", "ec", "seq", "try", "finally", "throw", "callec", "raise", "fn"])
    if k == "catch":
        tags = r.choice([None, None, "t1", "t2", ("t1", "t2"), ("t2", "t3"), 0, ("", "t1"), ()])
        return (k, tags, r.random() < .5, gen(r, d - 1, necs))
    if k == "ec":
        return (k, gen(r, d - 1, necs + 1))
    if k == "seq":
        return (k, [gen(r, d - 1, necs) for _ in range(2)])
    if k in ("try", "finally", "fn"):
        return (k, gen(r, d - 1, necs))
    if k == "throw":
        return (k, r.choice(TAGS), r.random() < .6, r.randrange(1000))
    if k == "callec":
        if not necs: return ("ret", 1)
        return (k, r.randrange(necs), r.randrange(1000))
    if k == "raise": return (k,)
    return ("ret", r.randrange(1000))


def real(p, ecs, log):
    k = p[0]
    if k == "catch":
        deco = catch(p[1], p[2])
        @deco
        def f(a, *, b): return real(p[3], ecs, log)
        return f(1, b=2)
    if k == "ec":
        @call_ec
        def result(ec): return real(p[1], ecs + [ec], log)
        return result
    if k == "seq":
        v = None
        for q in p[1]: v = real(q, ecs, log); log.append(v)
        return v
    if k == "try":
        try: return real(p[1], ecs, log)
        except Exception as e: log.append(("caught", type(e).__name__)); return "caught"
    if k == "finally":
        try: return real(p[1], ecs, log)
        finally: log.append("finally")
    if k == "fn": return (lambda: real(p[1], ecs, log))()
    if k == "throw": throw(p[3], tag=p[1], allow_catchall=p[2])
    if k == "callec": ecs[p[1]](p[2])
    if k == "raise": raise X
    return p[1]


class Esc(BaseException):
    def __init__(self, v, tag, ok): self.v, self.tag, self.ok = v, tag, ok


def spec(p, ecs, log):
    k = p[0]
    if k == "catch":
        tags = p[1] if isinstance(p[1], tuple) or p[1] is None else (p[1],)
        try: return spec(p[3], ecs, log)
        except Esc as e:
            if (tags is None and e.ok) or (p[2] and e.tag is None) or (tags is not None and e.tag is not None and e.tag in tags): return e.v
            raise
    if k == "ec":
        me = object()
        try: return spec(p[1], ecs + [me], log)
        except Esc as e:
            if e.tag is me: return e.v
            raise
    if k == "seq":
        v = None
        for q in p[1]: v = spec(q, ecs, log); log.append(v)
        return v
    if k == "try":
        try: return spec(p[1], ecs, log)
        except Exception as e: log.append(("caught", type(e).__name__)); return "caught"
    if k == "finally":
        try: return spec(p[1], ecs, log)
        finally: log.append("finally")
    if k == "fn": return spec(p[1], ecs, log)
    if k == "throw": raise Esc(p[3], p[1], p[2])
    if k == "callec": raise Esc(p[2], ecs[p[1]], False)
    if k == "raise": raise X
    return p[1]


@D.case(6000)
def programs(r):
    p = gen(r, r.choice([2, 3, 4, 5, 6]), 0)
    l1, l2 = [], []
    def run(f, l):
        try: return ("ok", f(p, [], l))
        except Exception as e: return ("exc", type(e).__name__)
        except BaseException as e: return ("escape", getattr(e, "value", None) if f is real else e.v)
    got, want = run(real, l1), run(spec, l2)
    eq(got, want, "outcome", program=p); eq(l1, l2, "trace", program=p)


@D.case(100)
def after_extent(r):
    saved = []
    v = Item(1)
    @call_ec
    def res(ec):
        saved.append(ec)
        if r.random() < .5: ec(v)
        return v
    same(res, v)
    raises(RuntimeError, lambda: saved[0](1), "escape after its extent")
    # an extent that ended by an exception has ended, too
    def f(ec): saved.append(ec); raise X
    raises(X, lambda: call_ec(f)); raises(RuntimeError, lambda: saved[1](1), "escape after its extent ended by exception")
    # used inside another, live, call_ec: still an error, not a jump to the wrong place
    @call_ec
    def res2(ec2):
        raises(RuntimeError, lambda: saved[0](5), "stale escape inside another extent"); return "ok"
    eq(res2, "ok")
    # many at once: each returns to its own
    def nest(n, ecs):
        if n == 0:
            k = r.randrange(len(ecs)); ecs[k](k); return
        @call_ec
        def res(ec):
            nest(n - 1, ecs + [ec]); return None
        return (n, res) if res is not None else None
    depth = r.randint(1, 6)
    target = []
    def go(n, ecs):
        @call_ec
        def res(ec):
            if n == 0:
                k = r.randrange(len(ecs + [ec])); target.append(k); (ecs + [ec])[k](("val", k))
            x = go(n - 1, ecs + [ec]); return ("through", len(ecs), x)
        return res
    out = go(depth, [])
    w = ("val", target[0])
    for lvl in reversed(range(target[0])): w = ("through", lvl, w)
    eq(out, w, "escape returned from the wrong call")
    # values delivered as is
    for val in (None, 0, (), [], X(), Item(1)):
        @call_ec
        def res(ec): ec(val)
        same(res, val)
        @catch()
        def g(): throw(val)
        same(g(), val)
        @catch("foo")
        def g(): throw(val, tag="foo")
        same(g(), val)
    # from a thread's own extent
    def w():
        @call_ec
        def res(ec): ec(threading.get_ident())
        return res == threading.get_ident()
    for o in run_threads([w] * 3): eq(o, ("ok", True))
    # recursion through the same catching function: the innermost activation catches
    log = []
    @catch("t")
    def rec(n):
        if n == 0: throw("x", tag="t")
        x = rec(n - 1); log.append((n, x)); return n
    rec(3); eq(log, [(1, "x"), (2, 1), (3, 2)])


if __name__ == "__main__":
    D.main()

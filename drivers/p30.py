from base import *
import traceback as tbm
from unpythonic.excutil import raisef, tryf, equip_with_traceback, reraise_in, reraise
D = Driver("P30")


class E0(Exception): pass
class E1(E0): pass
class E2(E1): pass
class F0(Exception): pass
class F1(F0, E0): pass
class BE(BaseException): pass
POOL = [E0, E1, E2, F0, F1, BE, ValueError, KeyError, KeyboardInterrupt, SystemExit, StopIteration, GeneratorExit]
SPECS = [E0, E1, E2, F0, F1, BE, Exception, BaseException, LookupError, ValueError]


def outb(th):
    try: return ("ok", th())
    except Violation: raise
    except BaseException as e: return ("exc", e)


@D.case(3000)
def tryf_(r):
    log = []
    V, H, L = Item("v"), Item("h"), Item("else")
    exc = r.choice(POOL)("x") if r.random() < .75 else None
    def body():
        log.append("body")
        if exc is not None: raise exc
        return V
    hs, want_h = [], None
    for i in range(r.randint(0, 4)):
        spec = r.choice(SPECS) if r.random() < .6 else tuple(r.choice(SPECS) for _ in range(r.randint(0, 3)))
        hraise = r.random() < .15; hexc = E2("from handler"); arg = r.choice([0, 1, 2])
        def h0(i=i, hraise=hraise, hexc=hexc):
            log.append(("h", i)); 
            if hraise: raise hexc
            return (H, i)
        def h1(e, i=i, hraise=hraise, hexc=hexc):
            log.append(("h", i)); same(e, exc, "handler got another exception")
            if hraise: raise hexc
            return (H, i)
        h2 = lambda *a, h1=h1: h1(*a)
        h = [(lambda h0=h0: h0()) if False else (lambda i=i, hraise=hraise, hexc=hexc: None), h1, h2][arg]
        if arg == 0:
            ns = {"f": h0}; exec("def z(): return f()", ns); h = ns["z"]
        hs.append((spec, h))
        if want_h is None and exc is not None and isinstance(exc, spec): want_h = (i, hraise, hexc)
    kw = {}
    haselse, hasfin = r.random() < .5, r.random() < .5
    elraise = r.random() < .15; elexc = r.choice([E0, F1])("from else")
    def elsef():
        log.append("else")
        if elraise: raise elexc
        return L
    finraise = r.random() < .1; finexc = F0("from finally")
    def finf():
        log.append("finally")
        if finraise: raise finexc
        return 99
    if haselse: kw["elsef"] = elsef
    if hasfin: kw["finallyf"] = finf
    wl = ["body"]
    if exc is None:
        if haselse: wl.append("else"); want = ("exc", elexc) if elraise else ("ok", L)
        else: want = ("ok", V)
    elif want_h is None: want = ("exc", exc)
    else: wl.append(("h", want_h[0])); want = ("exc", want_h[2]) if want_h[1] else ("ok", (H, want_h[0]))
    if hasfin:
        wl.append("finally")
        if finraise: want = ("exc", finexc)
    got = outb(lambda: tryf(body, *hs, **kw))
    desc = dict(exc=exc, specs=[s for s, _ in hs], haselse=haselse, hasfin=hasfin)
    eq(got[0], want[0], "outcome kind", got_=got, want_=want, **desc)
    if want[0] == "exc": same(got[1], want[1], "another exception", **desc)
    else: eq(got[1], want[1], "value", **desc)
    eq(log, wl, "parts run", **desc)
    del log[:]
    raises(TypeError, lambda: tryf(body, (42, lambda: 1))); raises(TypeError, lambda: tryf(body, ((E0, int), lambda: 1))); eq(log, [], "body run despite invalid handlers")


@D.case(2000)
def remap(r):
    exc = r.choice(POOL)("x") if r.random() < .85 else None
    n = r.randint(0, 4)
    mapping = {}
    for i in range(n):
        k = r.choice(SPECS) if r.random() < .7 else tuple(r.choice(SPECS) for _ in range(r.randint(1, 3)))
        mapping[k] = r.choice([RuntimeError, RuntimeError(f"app{i}"), E2, OSError("o")])
    V = Item("v")
    log = []
    def body():
        log.append(1)
        if exc is not None: raise exc
        return V
    def block():
        with reraise(mapping): return body()
    hit = None if exc is None else next((mapping[k] for k in mapping if isinstance(exc, k)), None)
    # contextlib swallows a RuntimeError caused by a StopIteration; that is outside the library
    artefact = isinstance(exc, StopIteration) and (hit is RuntimeError or isinstance(hit, RuntimeError))
    for th in (lambda: reraise_in(body, mapping),) + (() if artefact else (block,)):
        if exc is not None: exc.__traceback__ = None; exc.__cause__ = exc.__context__ = None
        del log[:]
        got = outb(th)
        desc = dict(exc=exc, mapping=mapping)
        if exc is None: check(got[0] == "ok", **desc); same(got[1], V)
        elif hit is None: check(got[0] == "exc", "swallowed", **desc); same(got[1], exc, "unlisted exception changed", got=got, **desc)
        else:
            check(got[0] == "exc", "swallowed", **desc)
            if isinstance(hit, BaseException): same(got[1], hit, "wrong exception", **desc)
            else: check(type(got[1]) is hit, "wrong exception type", got=got, **desc)
            same(got[1].__cause__, exc, "cause lost", **desc)
        eq(log, [1])


class Falsy(ValueError):
    def __len__(self): return 0


@D.case(500)
def raising(r):
    e = r.choice(POOL)("x"); c = r.choice([None, ValueError("c"), KeyError, Falsy("c")])
    got = outb(lambda: raisef(e, cause=c)); check(got[0] == "exc"); same(got[1], e)
    if c is None: check(e.__cause__ is None)
    elif isinstance(c, type): check(type(e.__cause__) is c)
    else: same(e.__cause__, c)
    T = r.choice(POOL); got = outb(lambda: raisef(T)); check(type(got[1]) is T)
    # as an expression in a lambda
    f = lambda x: x if x > 0 else raisef(E0(x)); eq(f(3), 3); raises(E0, lambda: f(-1))


@D.case(300)
def equip(r):
    depth = r.randint(0, 6); sl = r.randint(1, 3)
    e = E0("x")
    cause = e.__cause__ = ValueError("c")
    def rec(n):
        if n: return rec(n - 1)
        return equip_with_traceback(e, stacklevel=sl)
    out = rec(depth)
    same(out, e, "another exception object"); eq(e.args, ("x",)); same(e.__cause__, cause); check(e.__traceback__ is not None)
    frames = []
    t = e.__traceback__
    while t is not None: frames.append((t.tb_frame.f_code.co_name, t.tb_frame)); t = t.tb_next
    # outermost first, innermost (the caller at the given level) last
    inner = []
    f = sys._getframe(0)
    stack = []
    while f is not None: stack.append(f); f = f.f_back
    here = stack[0]
    names = [n for n, _ in frames]
    expect_rec = depth + 1 - (sl - 1)
    if expect_rec > 0: eq(names[-expect_rec:], ["rec"] * expect_rec, "innermost frames", depth=depth, sl=sl)
    rest = frames[:-expect_rec] if expect_rec > 0 else frames
    want = stack[::-1] if expect_rec >= 0 else stack[-expect_rec:][::-1]
    eq([id(x) for _, x in rest], [id(x) for x in want], "outer frames", depth=depth, sl=sl)
    raises(TypeError, lambda: equip_with_traceback(42)); raises(TypeError, lambda: equip_with_traceback(e, stacklevel=1.5)); raises(ValueError, lambda: equip_with_traceback(e, stacklevel=-1))


if __name__ == "__main__":
    D.main()

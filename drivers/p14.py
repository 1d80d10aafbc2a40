from base import *
import warnings
from unpythonic.conditions import (signal, error, cerror, warn, proceed, muffle, find_restart, invoke, use_value, invoker, available_restarts,
                                   available_handlers, restarts, with_restarts, handlers, ControlError, resignal_in, resignal)
from unpythonic import unbox
D = Driver("P14")


class A(Exception): pass
class B(A): pass
class C(Exception): pass
class W(Warning): pass
class X(Exception): pass     # ordinary exception used for non-local exit
TYPES = [A, B, C, W]
RN = ["r1", "r2", "use_value"]


# ---- programs -------------------------------------------------------------------------------------------------
def gen(r, d):
    k = r.choice(["signal", "log"] if d == 0 else ["handlers", "handlers", "handlers", "restarts", "restarts", "restarts", "seq", "signal", "signal", "raise", "try", "log", "resignal"])
    if k == "handlers":
        hs = []
        for _ in range(r.randint(0, 3)):
            t = r.choice(TYPES + [Exception, tuple(r.sample(TYPES, 2))])
            hs.append((t, genact(r, d), r.choice([0, 1])))
        return (k, hs, gen(r, d - 1))
    if k == "restarts":
        return (k, {n: r.choice(["val", "arg", "raise"]) for n in r.sample(RN, r.randint(0, 3))}, gen(r, d - 1), r.choice(["block", "with_restarts"]))
    if k == "seq":
        return (k, [gen(r, d - 1) for _ in range(r.randint(1, 3))])
    if k == "signal":
        return (k, r.choice(["signal", "error", "cerror", "warn"]), r.choice(TYPES), r.random() < .3)
    if k == "raise":
        return (k,)
    if k == "try":
        return (k, gen(r, d - 1))
    if k == "resignal":
        return (k, {r.choice(TYPES): r.choice(TYPES + [X])}, gen(r, d - 1))
    return ("log", r.randrange(1000))


def genact(r, d):
    k = r.choice(["decline", "decline", "invoke", "invoke", "invoke", "raise", "nested", "proceed", "muffle", "useval", "find"])
    if k == "invoke":
        return (k, r.choice(RN), r.randrange(100))
    if k == "nested":
        return (k, gen(r, max(0, min(d - 1, 1))))
    if k == "find":
        return (k, r.choice(RN), r.randrange(100))
    return (k,)


# ---- real execution -------------------------------------------------------------------------------------------
def real(p, log):
    k = p[0]
    if k == "handlers":
        def mk(j, act, narg):
            def run(c):
                log.append(("h", j, act[0]))
                if c is not None:
                    log.append(type(c).__name__)
                return doact(act, log)
            if narg:
                return lambda c: run(c)
            return lambda: run(None)
        with handlers(*[(t, mk(j, act, narg)) for j, (t, act, narg) in enumerate(p[1])]):
            return real(p[2], log)
    if k == "restarts":
        def mk(n, kind):
            def val(*a):
                log.append(("restart", n, a))
                if kind == "raise": raise X("in restart")
                return (n, kind, a)
            return val
        bs = {n: mk(n, kind) for n, kind in p[1].items()}
        if p[3] == "block":
            with restarts(**bs) as result:
                result << real(p[2], log)
            return unbox(result)
        @with_restarts(**bs)
        def result():
            return real(p[2], log)
        return result
    if k == "seq":
        out = None
        for q in p[1]:
            out = real(q, log)
            log.append(("seqval", repr(out)))
        return out
    if k == "signal":
        c = p[2] if not p[3] else p[2]("inst")
        if p[1] == "warn":
            c = p[2]("inst")
        proto = dict(signal=signal, error=error, cerror=cerror, warn=warn)[p[1]]
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                ret = proto(c)
            finally:
                for w in ws:
                    log.append(("warning", w.category.__name__))
        log.append(("signal returned", p[1], type(ret).__name__ if p[1] == "signal" else ret))
        return "sig"
    if k == "raise":
        raise X
    if k == "try":
        try:
            return real(p[1], log)
        except (X, ControlError) as e:
            log.append(("caught", type(e).__name__)); return "caught"
    if k == "resignal":
        with resignal(p[1]):
            return real(p[2], log)
    log.append(("log", p[1])); return p[1]


def doact(act, log):
    k = act[0]
    if k == "invoke": invoke(act[1], act[2])
    elif k == "useval": use_value(5)
    elif k == "find":
        f = find_restart(act[1])
        log.append(("found", act[1], f is not None))
        if f is not None:
            invoke(f, act[2])
    elif k == "raise": raise X("in handler")
    elif k == "nested": log.append(("nestedval", repr(real(act[1], log))))
    elif k == "proceed": proceed(None)
    elif k == "muffle": muffle(None)
    return "ignored"


# ---- specification: explicit stacks ---------------------------------------------------------------------------
class Transfer(BaseException):
    def __init__(self, frame, name, a): self.frame, self.name, self.a = frame, name, a


class Model:
    def __init__(self):
        self.H = []; self.R = []; self.log = []; self.depth = 0
    def find(self, name):
        for fr in reversed(self.R):
            if name in fr: return fr
    def invoke(self, name, *a):
        fr = self.find(name)
        if fr is None:
            self.error(ControlError)
        raise Transfer(fr, name, a)
    def signal(self, t, protocol="signal"):
        self.depth += 1
        if self.depth > 30: raise RecursionError
        try:
            for group in [g for g in reversed(self.H)]:
                for ht, fn in group:
                    ts = ht if isinstance(ht, tuple) else (ht,)
                    if any(issubclass(t, x) for x in ts):
                        fn(t, protocol)
        finally:
            self.depth -= 1
    def error(self, t, protocol="error"):
        self.signal(t, protocol)
        raise ControlError
    def block(self, fr, thunk):
        n = len(self.R); h = len(self.H)
        self.R.append(fr)
        try:
            return thunk()
        except Transfer as tr:
            if tr.frame is not fr: raise
            return fr[tr.name](*tr.a)
        finally:
            del self.R[n:]; del self.H[h:]
    def protocol(self, proto, t):
        if proto == "signal":
            self.signal(t); return t.__name__
        if proto == "error":
            self.error(t); assert False
        if proto == "cerror":
            return self.block({"proceed": lambda *a: self.badargs(a)}, lambda: self.error(t, "cerror"))
        if proto == "warn":
            def body():
                self.block({"_proceed": lambda: None}, lambda: self.signal(t, "warn"))
                self.log.append(("warning", t.__name__ if issubclass(t, Warning) else "Warning"))
                return None
            return self.block({"muffle": lambda *a: self.badargs(a)}, body)
    def badargs(self, a):
        if a: raise TypeError
        return None
    def run(self, p):
        log = self.log; k = p[0]
        if k == "handlers":
            def mk(j, act, narg):
                def fn(t, protocol):
                    log.append(("h", j, act[0]))
                    if narg: log.append(t.__name__)
                    self.act(act)
                return fn
            n = len(self.H); self.H.append([(t, mk(j, act, narg)) for j, (t, act, narg) in enumerate(p[1])])
            try: return self.run(p[2])
            finally: del self.H[n:]
        if k == "resignal":
            def fn(t, protocol):
                for s, d in p[1].items():
                    if issubclass(t, s):
                        self.protocol(protocol, d) if protocol != "warn" else self.warncls(d)
            n = len(self.H); self.H.append([(BaseException, fn)])
            try: return self.run(p[2])
            finally: del self.H[n:]
        if k == "restarts":
            def mk(n, kind):
                def val(*a):
                    log.append(("restart", n, a))
                    if kind == "raise": raise X
                    return (n, kind, a)
                return val
            return self.block({n: mk(n, kind) for n, kind in p[1].items()}, lambda: self.run(p[2]))
        if k == "seq":
            out = None
            for q in p[1]:
                out = self.run(q); log.append(("seqval", repr(out)))
            return out
        if k == "signal":
            ret = self.protocol(p[1], p[2])
            log.append(("signal returned", p[1], ret)); return "sig"
        if k == "raise": raise X
        if k == "try":
            try: return self.run(p[1])
            except (X, ControlError) as e:
                log.append(("caught", type(e).__name__)); return "caught"
        log.append(("log", p[1])); return p[1]
    def warncls(self, t):
        def body():
            self.block({"_proceed": lambda: None}, lambda: self.signal(t, "warn"))
            self.log.append(("warning", "Warning"))
            return None
        return self.block({"muffle": lambda *a: self.badargs(a)}, body)
    def act(self, act):
        k = act[0]
        if k == "invoke": self.invoke(act[1], act[2])
        elif k == "useval": self.invoke("use_value", 5)
        elif k == "find":
            f = self.find(act[1]); self.log.append(("found", act[1], f is not None))
            if f is not None: raise Transfer(f, act[1], (act[2],))
        elif k == "raise": raise X
        elif k == "nested": self.log.append(("nestedval", repr(self.run(act[1]))))
        elif k == "proceed": self.invoke("proceed")
        elif k == "muffle": self.invoke("muffle")


def snapshot():
    return ([n for n, f in available_restarts()], [t for t, f in available_handlers()])


@D.case(8000)
def programs(r):
    p = gen(r, r.choice([2, 3, 4, 5]))
    m = Model()
    try:
        want = ("ok", m.run(p))
    except RecursionError:
        return 0
    except Transfer as e:
        return 0
    except Exception as e:
        want = ("exc", type(e))
    before = snapshot()
    log = []
    try:
        got = ("ok", real(p, log))
    except Exception as e:
        got = ("exc", type(e))
    # warnings logged at the point where the protocol ends: compare as multiset-in-order after removing them
    nl = lambda l: [x for x in l if x[0] != "warning"]
    eq(nl(log), nl(m.log), "trace differs from specification", program=p)
    eq(sorted(x for x in log if x[0] == "warning"), sorted(x for x in m.log if x[0] == "warning"), "warnings differ", program=p)
    eq(repr(got), repr(want), "outcome differs from specification", program=p)
    eq(snapshot(), before, "handler/restart stacks not restored", program=p)
    return 1


@D.case(40)
def protocols(r):
    # nothing handles: signal returns the condition instance, error raises ControlError with the condition as cause
    c = A("x"); same(signal(c), c, "signal returns the canonized condition")
    check(isinstance(signal(A), A))
    e = raises(ControlError, lambda: error(A("y")), "unhandled error")
    check(isinstance(e.__cause__, A) and e.__cause__.args == ("y",), "cause of ControlError is the condition")
    e = raises(ControlError, lambda: cerror(A)); check(isinstance(e.__cause__, A))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always"); eq(warn(W("hm")), None)
    eq(len(ws), 1, "unhandled warn must issue a warning"); check(ws[0].category is W)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        with handlers((W, muffle)): warn(W("hm"))
    eq(len(ws), 0, "muffle must suppress the warning")
    with handlers((A, proceed)): cerror(A("z"))
    raises(ControlError, lambda: invoke("no_such_restart"), "unknown restart")
    check(find_restart("no_such_restart") is None)
    raises(ControlError, lambda: signal(42), "signalling a non-exception"); raises(ControlError, lambda: invoke(42))
    cause = C("c"); c = A("x"); signal(c, cause=cause); same(c.__cause__, cause)
    # args and kwargs reach the restart
    with restarts(r=lambda a, *b, k=None: (a, b, k)) as result:
        with handlers((A, lambda c: invoke("r", 1, 2, 3, k=c.args))):
            error(A("p"))
    eq(unbox(result), (1, (2, 3), ("p",)))
    with restarts(use_value=lambda x: x) as result:
        with handlers((A, invoker("use_value", 42))): error(A)
    eq(unbox(result), 42)
    with restarts(r=lambda: 1) as result:
        pass
    check(unbox(result) is None)
    raises(ControlError, lambda: handlers((A, 42)).__class__); raises(ControlError, lambda: handlers((42, lambda: 1)))
    # innermost restart of a name wins, and find_restart outside pins the outer one
    with restarts(r=lambda: "outer") as ro:
        outer = find_restart("r")
        with restarts(r=lambda: "inner") as ri:
            with handlers((A, lambda c: invoke("r"))): error(A)
        eq(unbox(ri), "inner")
        with restarts(r=lambda: "inner") as ri:
            with handlers((A, lambda c: invoke(outer))): error(A)
    eq(unbox(ro), "outer", "a found restart belongs to its own block")
    # the block is unwound, with cleanup, before the value is delivered
    log = []
    with restarts(r=lambda: log.append("restart") or 1) as result:
        try:
            with handlers((A, lambda c: invoke("r"))): error(A)
        finally:
            log.append("cleanup")
    eq(log, ["cleanup", "restart"])
    def lib(): error(A("lib"))
    with handlers((C, lambda c: use_value(c.__cause__))), restarts(use_value=lambda x: x) as res:
        resignal_in(lib, {A: C})
    check(isinstance(unbox(res), A), "resignal keeps the cause")


@D.case(30)
def threads(r):
    log = []
    with handlers((A, lambda c: log.append("main"))), restarts(rmain=lambda: 1) as _:
        def w():
            check(find_restart("rmain") is None, "another thread's restart is visible"); eq(snapshot(), ([], []))
            signal(A); eq(log, [], "another thread's handler ran")
            with handlers((C, lambda c: None)), restarts(rr=lambda: 1):
                ready.set(); go.wait(10)
                eq(snapshot(), (["rr"], [C]))
            return 1
        ready, go = threading.Event(), threading.Event()
        res = []
        t = threading.Thread(target=lambda: res.append(run1(w)), daemon=True); t.start()
        check(ready.wait(10) , "thread failed", res=res)
        eq(snapshot(), (["rmain"], [A]), "another thread's bindings are visible"); go.set(); t.join(10)
        check(res and res[0][0] == "ok", "thread failed", res=res)


def run1(f):
    try: return ("ok", f())
    except BaseException as e: return ("exc", e)


@D.case(200)
def listing(r):
    """available_handlers/available_restarts: every reachable binding once, the innermost one."""
    types = [type(f"C{i}", (Exception,), {}) for i in range(4)]
    blocks = []
    for _ in range(r.randint(0, 3)):
        b = []
        for _ in range(r.randint(1, 3)):
            k = r.randint(1, 2); spec = tuple(r.sample(types, k))
            b.append((spec if k > 1 or r.random() < .3 else spec[0], (lambda i: (lambda *a: i))(object())))
        blocks.append(b)
    base = dict(available_handlers())
    def run(i):
        if i < len(blocks):
            with handlers(*blocks[i]): return run(i + 1)
        return available_handlers()
    got = run(0)
    want = {}
    for b in reversed(blocks):
        for spec, h in b:
            for t in (spec if isinstance(spec, tuple) else (spec,)): want.setdefault(t, h)
    want = {**base, **want}
    eq(len(got), len(want), "each type listed once", got=got)
    for t, h in got: same(h, want.get(t), "handler listed for a type", t=t)
    eq([t.__name__ for t, _ in got], sorted(t.__name__ for t, _ in got))
    names = [dict((n_, (lambda v: (lambda: v))(object())) for n_ in r.sample(["a", "b", "c", "d"], r.randint(1, 3))) for _ in range(r.randint(0, 3))]
    rb = dict(available_restarts())
    def run2(i):
        if i < len(names):
            with restarts(**names[i]): return run2(i + 1)
        return available_restarts()
    got = run2(0); want = dict(rb)
    for b in names: want.update(b)
    eq([k for k, _ in got], sorted(want), "restarts listed"); 
    for k, f in got: same(f, want[k], "restart listed", name=k)


if __name__ == "__main__":
    D.main()

"""P14: signals reach the right handler, and restarts resume exactly where invoked.

The dynamic context is built with the real handlers/restarts blocks; what handlers, restarts and bodies do is arbitrary
(host functions that check what they see).  Nesting is covered to the depth stated in ASSUMPTIONS."""
from spec import *
from lib import *
import itertools
M = "unpythonic.conditions:"
TRUSTED = ["arity_includes answers as P20 states (a table of the handlers used here)", "equip_with_traceback returns the same exception (checked at run time by the P14/P30 drivers)",
           "contextlib.contextmanager, threading.local, warnings.warn (pyvc/prelude.py, pyvc/models.py; warn is a recorder)"]
ASSUMPTIONS = ["handler blocks nested up to three deep with up to two bindings each (any number of blocks, one binding each, in the contract over symbolic stacks), restart blocks up to three deep; condition types from a lattice of three classes and tuples of them"]


class W:
    """the world: classes A, B(A), C, W(Warning) and recorded warnings"""
    def __init__(self, v):
        self.v, p = v, v.p
        v.call("unpythonic.lazyutil:_init_module"); v.call("unpythonic.funutil:_init_module")
        self.A = md.make_class(p, "A", [Exception], {}, p.module("unpythonic.conditions"), None)
        self.B = md.make_class(p, "B", [self.A], {}, p.module("unpythonic.conditions"), None)
        self.C = md.make_class(p, "C", [Exception], {}, p.module("unpythonic.conditions"), None)
        self.Wn = md.make_class(p, "Wn", [Warning], {}, p.module("unpythonic.conditions"), None)
        self.noarg = set()
        p.summaries["unpythonic.arity:arity_includes"] = lambda p_, a, kw: a[0] not in self.noarg
        p.summaries["unpythonic.excutil:equip_with_traceback"] = lambda p_, a, kw: a[0]
        self.warned = []
        p.overrides[M + "warnings"] = md.NativeMod("warnings", {"warn": Fn(lambda p_, a, kw: self.warned.append((a, kw)), "warn")})
        self.log = []
    def types(self): return [self.A, self.B, self.C, (self.A, self.C), (self.C, self.B)]
    def matches(self, t, cls): return any(x in cls.mro for x in (t if isinstance(t, tuple) else (t,)))
    def handler(self, tag, act=None, noarg=False):
        def f(p, args, kw):
            self.v.oblige("called with the condition, or with nothing if it takes nothing", z3.BoolVal(not kw and len(args) == (0 if noarg else 1)))
            self.log.append((tag, args[0] if args else None))
            return act(args[0] if args else None) if act else self.v.obj("junk")
        h = Fn(f, f"h{tag}")
        if noarg: self.noarg.add(h)
        return h
    def stacks(self):
        v = self.v
        return (tuple(to_seq(v.p, v.call(M + "available_handlers")).items), tuple(to_seq(v.p, v.call(M + "available_restarts")).items))
    def empty(self, when): self.v.oblige("handler and restart stacks as before" + when, z3.BoolVal(self.stacks() == ((), ())))
    def block(self, cm, body):
        """with cm: body() -- the semantics of the with statement on the real context manager"""
        v, p = self.v, self.v.p
        val = v.method(cm, "__enter__")
        try: r = body(val)
        except PyRaise as e:
            if not v.case(v.truthy(v.method(cm, "__exit__", md.py_type(p, e.exc), e.exc, None))): raise
            return None
        v.method(cm, "__exit__", None, None, None)
        return r
    def handlers(self, binds, body): return self.block(self.v.call(M + "handlers", *binds), lambda _: body())
    def restarts(self, binds, body): return self.block(self.v.call(M + "restarts", **binds), body)


PROT = ["signal", "error", "cerror", "warn"]


@contract(M + "signal", name=M + "signal, error, cerror, warn (which handlers, in which order)", variants=[(pr, n) for pr in PROT for n in (0, 1, 2)])
def _(v, var):
    prot, nb = var
    w = W(v)
    ts = w.types()
    blocks = []
    for i in range(nb):
        k = 2 if nb == 1 else 1 + (i == 0)
        blocks.append([(ts[v.choose(len(ts) if nb < 2 else 4)], v.choose(2) if nb == 1 and j else (i + j) % 2) for j in range(k)])
    cls = [w.A, w.B, w.C][v.choose(3)]
    how = v.choose(2) if nb < 2 else nb % 2
    inst = v.call(cls) if how else cls
    want = []
    binds = [[(t, w.handler((i, j), noarg=bool(na))) for j, (t, na) in enumerate(b)] for i, b in enumerate(blocks)]
    for i in reversed(range(nb)):
        for j, (t, na) in enumerate(blocks[i]):
            if w.matches(t, cls): want.append(((i, j), na))
    def go(i):
        if i < nb: return w.handlers(binds[i], lambda: go(i + 1))
        return v.call(M + prot, inst)
    kind, r = v.attempt(lambda: go(0))
    v.oblige("matching handlers, innermost first, in listed order, each once, no others", z3.BoolVal([t for t, _ in w.log] == [t for t, _ in want]))
    cond = [c for _, c in w.log if c is not None]
    v.oblige("every handler sees the one condition signalled", z3.BoolVal(all(c is cond[0] and c.cls is cls for c in cond) and (not how or all(c is inst for c in cond))))
    if prot == "signal":
        v.oblige("signal returns the condition when all decline", z3.BoolVal(kind == "ok" and isinstance(r, HObj) and md.py_type(v.p, r) is cls and (not how or r is inst) and (not cond or r is cond[0])))
    elif prot == "warn":
        v.oblige("warn emits a warning and returns when all decline", z3.BoolVal(kind == "ok" and r is None and len(w.warned) == 1))
    else:
        v.oblige("raises when all decline", z3.BoolVal(kind == "raise"))
        v.exc_is("ControlError", r, v.get(M + "ControlError"))
        c = v.p.getattr(r, "__cause__")
        v.oblige("from the condition", z3.BoolVal(c is (inst if how else c) and md.py_type(v.p, c) is cls and (not cond or c is cond[0])))
    if prot != "warn": v.oblige("no warning", z3.BoolVal(not w.warned))
    w.empty("")


@contract(M + "signal", name=M + "signal (any number of handler blocks)")
def _(v):
    w = W(v)
    c = v.c
    H = z3.Function("handler", I, U); idx = z3.Function("handler_idx", U, I); match = z3.Function("matches", I, B); T = z3.Function("htype", I, U)
    def elem(i):
        c.assume(z3.And(idx(H(i)) == i, z3.Not(bz(md.py_isinstance(v.p, SU(T(i)), tuple))), md.issub(toU(w.A), T(i)) == match(i)))
        return ((SU(T(i)), SU(H(i))),)
    st = v.get(M + "_stacks")
    v.call(M + "_ensure_stacks")
    dq = v.p.getattr(st, "handlers")
    if not isinstance(dq, ListObj): raise Unsupported("representation of the handler stack")
    s = v.source("blocks", "tuple", elem)
    dq.put(s.seq)
    w.noarg = set()
    v.p.summaries["unpythonic.arity:arity_includes"] = lambda p_, a, kw: True
    cnt = z3.Function("matching_below", I, I)
    v.assume(cnt(0) == 0)
    c.recdef(lambda i: z3.Implies(i >= 0, cnt(i + 1) == cnt(i) + z3.If(match(i), 1, 0)))
    c.hints.append(lambda i: mki(cnt(i)))
    g = HObj(k=0)
    inst = v.call(w.A)
    def apply(p, fn, args, kw):
        i = idx(fn.t); c.index(i)
        v.oblige("called with the condition", z3.BoolVal(len(args) == 1 and not kw and args[0] is inst))
        v.oblige("matching handlers, innermost first, each once", z3.And(match(i), i >= 0, i < s.n, iz(g.get("k")) == cnt(i), fn.t == H(i)))
        g.set("k", mki(iz(g.get("k")) + 1))
        return None
    c.on_apply = apply
    r = v.total("signal", lambda: v.call(M + "signal", inst))
    c.index(s.n)
    v.oblige("every matching handler was tried", iz(g.get("k")) == cnt(s.n))
    v.oblige("returns the condition", z3.BoolVal(r is inst))
    v.same("the stack is unchanged", v.items(dq), s.seq)


@contract(M + "handlers", name=M + "handlers, restarts (transparent to everything else)", variants=[(k, how) for k in ("handlers", "restarts", "with_restarts") for how in ("return", "raise", "base", "generatorexit", "systemexit", "stop", "handler raises")])
def _(v, var):
    kind, how = var
    w = W(v)
    out, exc = v.obj("out"), mkexc({"base": KeyboardInterrupt, "generatorexit": GeneratorExit, "systemexit": SystemExit, "stop": RuntimeError}.get(how, ValueError), 1)
    outer = w.handler("outer")
    ran = []
    def body(*_):
        ran.append(1)
        if how == "return": return out
        if how == "handler raises": return v.call(M + "signal", w.B)
        raise PyRaise(exc)
    def boom(c): raise PyRaise(exc)
    h = w.handler("h", boom if how == "handler raises" else None)
    def go():
        if kind == "handlers": return w.handlers([(w.A, h)], body)
        def mid():
            if kind == "restarts": return w.restarts({"r": h}, body)
            return v.call(v.call(M + "with_restarts", r=Fn(lambda p, a, kw: None, "r")), Fn(lambda p, a, kw: body(), "body"))
        return w.handlers([(w.A, h)], mid) if how == "handler raises" else mid()
    snap = []
    def outerblock():
        snap.append(w.stacks())
        k, r = v.attempt(go)
        v.oblige("handler and restart stacks exactly as they were", z3.BoolVal(w.stacks() == snap[0]))
        return k, r
    k, r = w.handlers([(w.A, outer)], outerblock)
    v.oblige("the body ran once", z3.BoolVal(len(ran) == 1))
    if how == "return":
        v.oblige("normal exit", z3.BoolVal(k == "ok")); v.same("its value", r, out); v.oblige("no handler ran", z3.BoolVal(not w.log))
    else:
        v.oblige("the exception passes", z3.BoolVal(k == "raise" and r is exc))
        v.oblige("handlers further out are not tried", z3.BoolVal(w.log == [] or [t for t, _ in w.log] == ["h"]))
    w.empty(" after all")


RL = [(), ("r",), ("r", "r"), ("r", "s"), ("s", "r"), ("r", "s", "r"), ("s", "r", "s"), ("rs", "r"), ("r", "rs"), ("rs", "s", "r")]


@contract(M + "invoke", name=M + "invoke, restarts (where control resumes)", variants=[(l, fl, via) for l in RL for fl in ("block", "with") for via in ("handler", "direct", "bound", "invoker", "use_value")])
def _(v, var):
    levels, fl, via = var
    w = W(v)
    p = v.p
    x, k, plain = v.obj("x"), v.obj("k"), v.obj("plain")
    name = "r"
    n = len(levels)
    target = max([i for i in range(n) if "r" in levels[i]], default=None)
    real = {"r": "use_value" if via == "use_value" else "r", "s": "s"}
    calls, after, results = [], [], {}
    outv = [v.obj(f"restartvalue{i}") for i in range(n)]
    def mk(i, nm):
        def f(p_, a, kw):
            calls.append((i, nm, tuple(a), dict(kw)))
            v.oblige("unwound to its block before the restart runs" if False else "restart called", z3.BoolVal(True))
            return outv[i]
        return Fn(f, f"restart{i}{nm}")
    def inner():
        def act(*_):
            if via == "bound":
                b = v.call(M + "find_restart", "r")
                if b is None: return v.call(M + "invoke", "r", x, k=k)
                return v.call(M + "invoke", b, x, k=k)
            if via == "invoker": return v.call(v.call(M + "invoker", "r", x, k=k), None)
            if via == "use_value": return v.call(v.get(M + "use_value"), x, k=k)
            return v.call(M + "invoke", "r", x, k=k)
        if via == "direct": act(); after.append("after invoke"); return None
        r = w.handlers([(w.A, w.handler("h", act))], lambda: v.call(M + "signal", w.B))
        after.append("after signal"); return r
    def go(i):
        if i == n: return inner()
        b = {real[nm]: mk(i, nm) for nm in levels[i]}
        if fl == "with":
            def body(p_, a, kw): go(i + 1); after.append(("body", i)); return plain
            r = v.call(v.call(M + "with_restarts", **b), Fn(body, f"body{i}"))
            results[i] = r
        else:
            boxes = []
            def body(bx): boxes.append(bx); go(i + 1); after.append(("body", i))
            w.restarts(b, body)
            results[i] = v.call("unpythonic.collections:unbox", boxes[0])
        after.append(("done", i))
    kk, r = v.attempt(lambda: go(0))
    w.empty(" afterwards")
    if target is None:
        v.oblige("no such restart: an error", z3.BoolVal(kk == "raise")); v.exc_is("ControlError", r, v.get(M + "ControlError")); v.oblige("nothing was restarted", z3.BoolVal(not calls)); return
    v.oblige("control resumes", z3.BoolVal(kk == "ok"))
    v.oblige("the innermost restart of that name, once, no other", z3.BoolVal([(c[0], c[1]) for c in calls] == [(target, "r")]))
    v.same("with the arguments", calls[0][2], (x,)); v.oblige("with the arguments by name", z3.BoolVal(set(calls[0][3]) == {"k"})); v.same("with the arguments by name", calls[0][3]["k"], k)
    v.same("its value becomes the result of its block", results[target], outv[target])
    v.oblige("exactly the blocks inside it are abandoned", z3.BoolVal(after == [("done", target)] + [e for i in reversed(range(target)) for e in (("body", i), ("done", i))]))
    for i in range(target): v.same("blocks further out end normally", results[i], plain if fl == "with" else None)


@contract(M + "find_restart", name=M + "find_restart, invoke (a bound restart is that very one)", variants=["equal", "different"])
def _(v, var):
    """an outer restart found earlier, then hidden by an inner block with the same name (even with equal bindings)"""
    w = W(v)
    x, o1, o2 = v.obj("x"), v.obj("o1"), v.obj("o2")
    calls, after = [], []
    f1 = Fn(lambda p, a, kw: (calls.append("outer"), o1)[1], "f1"); f2 = f1 if var == "equal" else Fn(lambda p, a, kw: (calls.append("inner"), o2)[1], "f2")
    boxes = []
    def outer(b):
        boxes.append(b)
        bound = v.call(M + "find_restart", "r")
        v.oblige("found", z3.BoolVal(bound is not None))
        def inner(b2):
            boxes.append(b2); v.call(M + "invoke", bound, x)
        w.restarts({"r": f2}, inner); after.append("inner block left normally")
    v.total("run", lambda: w.restarts({"r": f1}, outer))
    v.oblige("the restart found, once", z3.BoolVal(calls == ["outer"])); v.oblige("its own block ends; the inner one is abandoned", z3.BoolVal(after == []))
    v.same("its value goes to its own block", v.call("unpythonic.collections:unbox", boxes[0]), o1)
    v.same("not to the inner one", v.call("unpythonic.collections:unbox", boxes[1]), None)
    v.oblige("not found outside", z3.BoolVal(v.call(M + "find_restart", "r") is None))


@contract(M + "cerror", name=M + "cerror, warn (offered restarts)", variants=["cerror", "warn muffle", "warn", "error", "warn Warning"])
def _(v, var):
    w = W(v)
    seen = []
    prot = var.split()[0]
    def act(c):
        seen.append({q[0] for q in w.stacks()[1]})
        if var == "cerror": v.call(v.get(M + "proceed"), c)
        if var == "warn muffle": v.call(v.get(M + "muffle"), c)
        return None
    cls = w.Wn if "Warning" in var else w.B
    cond = v.call(cls)
    k, r = v.attempt(lambda: w.handlers([(w.A, w.handler("h", act)), (w.Wn, w.handler("h2", act))], lambda: v.call(M + prot, cond)))
    want = {"cerror": "proceed", "warn": "muffle", "error": None}[prot]
    v.oblige("offers its restart", z3.BoolVal(len(seen) == 1 and (want in seen[0] if want else not seen[0])))
    if prot == "error": v.oblige("error raises", z3.BoolVal(k == "raise"))
    else: v.oblige("execution continues", z3.BoolVal(k == "ok" and r is None))
    v.oblige("a warning is emitted unless muffled", z3.BoolVal(len(w.warned) == (1 if var in ("warn", "warn Warning") else 0)))
    if "Warning" in var: v.oblige("the warning itself", z3.BoolVal(w.warned[0][0][0] is cond))
    w.empty("")


@contract(M + "signal", name=M + "per-thread stacks")
def _(v):
    w = W(v)
    h, r = w.handler("h"), Fn(lambda p, a, kw: None, "r")
    def body(_):
        v.thread(1)
        v.oblige("another thread sees no handlers and no restarts", z3.BoolVal(w.stacks() == ((), ()))); v.call(M + "signal", w.A); v.oblige("its signals do not reach our handlers", z3.BoolVal(not w.log))
        v.must_raise("nor does it find our restarts", v.get(M + "ControlError"), lambda: v.call(M + "invoke", "r"))
        w.handlers([(w.A, w.handler("other"))], lambda: v.call(M + "signal", w.A)); w.empty(" in the other thread")
        v.thread(0)
        v.oblige("ours are unaffected", z3.BoolVal(len(w.stacks()[0]) == 1 and len(w.stacks()[1]) == 1 and [t for t, _ in w.log] == ["other"])); v.call(M + "signal", w.A); v.oblige("and still work", z3.BoolVal([t for t, _ in w.log] == ["other", "h"]))
    v.total("run", lambda: w.handlers([(w.A, h)], lambda: w.restarts({"r": r}, body)))


@contract(M + "handlers", name=M + "handlers, restarts, signal (refusals)")
def _(v):
    w = W(v)
    CE = v.get(M + "ControlError")
    ok = w.handler("h")
    how = v.choose(6)
    if how == 0: v.must_raise("type must be an exception type", CE, lambda: v.call(M + "handlers", (int, ok)))
    elif how == 1: v.must_raise("handler must be callable", CE, lambda: v.call(M + "handlers", (w.A, 5)))
    elif how == 2: v.must_raise("tuple of exception types", CE, lambda: v.call(M + "handlers", ((w.A, int), ok)))
    elif how == 3: v.must_raise("restart must be callable", CE, lambda: v.method(v.call(M + "restarts", r=5), "__enter__"))
    elif how == 4: v.must_raise("only exceptions can be signalled", CE, lambda: v.call(M + "signal", 5))
    else: v.must_raise("not a restart", CE, lambda: v.call(M + "invoke", 5))
    w.empty("")


@contract(M + "resignal", name=M + "resignal, resignal_in", variants=[(k, pr, hit) for k in ("resignal", "resignal_in") for pr in ("signal", "error", "cerror") for hit in (True, False)])
def _(v, var):
    kind, prot, hit = var
    w = W(v)
    d = DictObj(); d.raw_set(w.A if hit else w.C, w.Wn)
    cond = v.call(w.B)
    got = []
    def act(c): got.append((c, {q[0] for q in w.stacks()[1]}))
    hB, hW = w.handler("lib"), w.handler("app", act)
    body = lambda *_: v.call(M + prot, cond)
    def mid():
        if kind == "resignal": return w.block(v.call(M + "resignal", d), body)
        return v.call(M + "resignal_in", Fn(lambda p, a, kw: body(), "body"), d)
    k, r = v.attempt(lambda: w.handlers([(w.Wn, hW), (w.B, hB)], mid))
    if hit:
        v.oblige("the mapped condition is signalled with the same protocol", z3.BoolVal([t for t, _ in w.log][:1] == ["app"] and md.py_type(v.p, got[0][0]) is w.Wn and ("proceed" in got[0][1]) == (prot == "cerror")))
        v.oblige("with the original as its cause", z3.BoolVal(v.p.getattr(got[0][0], "__cause__") is cond))
    else: v.oblige("other conditions pass", z3.BoolVal([t for t, _ in w.log] == ["lib"] and w.log[0][1] is cond))
    v.oblige("protocol kept", z3.BoolVal((k == "ok") == (prot == "signal"))); w.empty("")


@contract(M + "signal", name=M + "signal (handlers that establish blocks and signal themselves)", variants=["decline", "raise inside"])
def _(v, var):
    w = W(v)
    exc = mkexc(ValueError, 1)
    def act(c):
        def body():
            if var == "raise inside": raise PyRaise(exc)
            return v.call(M + "signal", w.C)
        k, r = v.attempt(lambda: w.handlers([(w.C, w.handler("nested"))], lambda: w.restarts({"q": Fn(lambda p, a, kw: None, "q")}, lambda b: body())))
        v.oblige("inside", z3.BoolVal((k == "raise" and r is exc) == (var == "raise inside")))
    def mid(): return w.handlers([(w.A, w.handler("h1", act)), (w.C, w.handler("c1"))], lambda: v.call(M + "signal", w.B))
    v.total("run", lambda: w.handlers([(w.A, w.handler("h2")), (w.C, w.handler("c2"))], mid))
    want = ["h1", "nested", "c1", "c2", "h2"] if var == "decline" else ["h1", "h2"]
    v.oblige("the nested signal reaches all handlers in effect; then the search goes on where it was", z3.BoolVal([t for t, _ in w.log] == want)); w.empty("")

"""P29: a repeated call in progress is answered by the bottom value."""
from spec import *
from lib import *
X = "unpythonic.fix:"
TRUSTED = ["inspect.signature, Signature.bind and BoundArguments.apply_defaults: CPython's own source, interpreted", "threading.local (pyvc/models.py)"]
ASSUMPTIONS = ["call trees: chains of up to three nested calls (four in the thorough tier), or three jumps in a row, over two mutually recursive functions, any arguments (each call treats the ones in progress alike, however many)",
               "arguments are opaque hashable values; equal arguments are one term"]

SRC = """
from unpythonic.fix import fix, fixtco
from unpythonic.tco import jump, trampolined
def f(x, y=0): return step(0, x, y)
def g(x, y=0): return step(1, x, y)
"""


class World:
    """two functions whose bodies follow a script: at depth k (the bodies running), plan(k, who, x) says what to do next"""
    def __init__(self, v, deco="fix", bottom="value", memo=False):
        self.v = v
        v.call("unpythonic.lazyutil:_init_module"); v.call("unpythonic.funutil:_init_module")
        v.p.summaries["unpythonic.lazyutil:force"] = lambda p, a, kw: a[0]
        v.c.eqclasses = True
        v.c.rounds = 12
        self.ran, self.stack = [], []
        self.plan = None
        self.m = v.user(SRC, step=Fn(self.step, "step"))
        self.bots = []
        kw = {"memo": memo}
        self.B = v.obj("bottom"); self.kind = bottom
        if bottom == "value":
            v.assume(z3.Not(z3.Function("py_callable", U, B)(self.B.t))); v.assume(self.B.t != toU(typing_noreturn(v)))
            kw["bottom"] = self.B
        elif bottom == "function": kw["bottom"] = Fn(self.bot, "bottom")
        d = v.total("decorator", lambda: v.call(X + deco, **kw))
        self.fs = [v.total("decorate", lambda: v.call(d, self.m.f)), v.total("decorate", lambda: v.call(d, self.m.g))]
    def bot(self, p, a, kw): self.bots.append((a, dict(kw))); return self.v.obj(f"bottom{len(self.bots)}")
    def step(self, p, a, kw):
        who, x, y = a
        self.ran.append((who, x))
        return self.plan(who, x)
    def check_bottom(self, name, r, who, x, args=None):
        v = self.v
        if self.kind == "value": v.same(name + ": the bottom value", r, self.B)
        elif self.kind == "default": v.same(name + ": NoReturn", r, typing_noreturn(v))
        else:
            v.same(name + ": what the bottom function returns", r, v.obj(f"bottom{len(self.bots)}"))
            a, kw = self.bots[-1] if self.bots else ((), {})
            v.oblige(name + ": bottom gets the name", z3.BoolVal(len(a) >= 1 and a[0] == "fg"[who]))
            if args is None: v.oblige(name + ": bottom gets the arguments", z3.BoolVal(len(a) == 2 and not kw)); v.same(name + ": bottom's argument", a[1], x) if len(a) == 2 else None
            else: v.oblige(name + ": bottom gets the named arguments", z3.BoolVal(len(a) == 1 and set(kw) == {"x"})); v.same(name + ": bottom's argument", kw["x"], x) if "x" in kw else None
    def clean(self, name):
        """nothing is left in progress: every call runs again"""
        v = self.v
        xs = [v.obj("again")] + [x for _, x in self.ran]
        for who in (0, 1):
            for x in xs[1 - who:3 - who]:
                r0 = v.obj("r0"); self.plan = lambda w, y: r0
                n = len(self.ran)
                r = v.total(name + "/a later call", lambda: v.call(self.fs[who], x))
                v.oblige(name + "/a later call runs the function", z3.BoolVal(len(self.ran) == n + 1)); v.same(name + "/its value", r, r0)


def typing_noreturn(v):
    import typing
    return typing.NoReturn


PATTERNS = [p for n in (1, 2, 3, 4) for p in __import__("itertools").product((0, 1), repeat=n) if p[0] == 0 and (n < 4 or p in ((0, 0, 0, 0), (0, 1, 0, 1), (0, 1, 1, 0)))]


NESTED = [(p, b, e) for p in PATTERNS for b in ("value", "function", "default") for e in ("return", "raise") if b != "default" or len(p) < 3]


@contract(X + "fix", name=X + "fix (nested calls)", variants=[x for x in NESTED if len(x[0]) < 4])
def _(v, var): nested(v, var)


@contract(X + "fix", name=X + "fix (four nested calls)", variants=[x for x in NESTED if len(x[0]) == 4], tier="thorough")
def _(v, var): nested(v, var)


def nested(v, var):
    """f(x0) calls f or g (x1), which calls ..., any arguments; each body returns its own value, or the last one raises"""
    pat, bottom, end = var
    w = World(v, bottom=bottom)
    xs = [v.obj(f"x{k}") for k in range(len(pat))]
    rs = [v.obj(f"r{k}") for k in range(len(pat))]
    exc = mkexc(ValueError)
    depth = [0]
    def call(k):
        byname = k % 2 == 1
        prog = [j for j in range(k) if pat[j] == pat[k]]
        n, nb = len(w.ran), len(w.bots)
        kind, r = v.attempt(lambda: v.call(w.fs[pat[k]], **{"x": xs[k]}) if byname else v.call(w.fs[pat[k]], xs[k]))
        if v.case(z3.Or([xs[j].t == xs[k].t for j in prog] + [z3.BoolVal(False)])):
            v.oblige("a repeated call returns", z3.BoolVal(kind == "ok"))
            v.oblige("a repeated call does not run the function", z3.BoolVal(len(w.ran) == n))
            if kind == "ok": w.check_bottom("a repeated call", r, pat[k], xs[k], "named" if byname else None)
        elif kind == "raise": v.oblige("only the function's own exception", same(r, exc)); raise PyRaise(r)
        else:
            v.oblige("the function ran", z3.BoolVal(len(w.ran) > n and w.ran[n][0] == pat[k])); v.same("with its argument", w.ran[n][1], xs[k])
            v.same("and its value is the result", r, rs[k])
        return r
    def plan(who, x):
        k = depth[0]
        if k + 1 < len(pat):
            depth[0] += 1
            try: call(k + 1)
            finally: depth[0] -= 1
            w.plan = plan
            which = v.choose(3)
            if which == 1:
                # a second call with the same argument, after the first has returned: not in progress any more
                depth[0] += 1
                try: call(k + 1)
                finally: depth[0] -= 1
            elif which == 2:
                # a call with any argument: repeats one of those still in progress, or runs
                z, rz = v.obj("z"), v.obj("rz")
                w.plan = lambda who_, x_: rz
                n = len(w.ran)
                r = v.total("another call", lambda: v.call(w.fs[pat[k]], z))
                w.plan = plan
                if v.case(z3.Or([xs[j].t == z.t for j in range(k + 1) if pat[j] == pat[k]])):
                    v.oblige("another call, which repeats one in progress, does not run", z3.BoolVal(len(w.ran) == n)); w.check_bottom("another call", r, pat[k], z)
                else: v.oblige("another call runs", z3.BoolVal(len(w.ran) == n + 1)); v.same("another call: its value", r, rz)
        elif end == "raise": raise PyRaise(exc)
        return rs[k]
    w.plan = plan
    kind, r = v.attempt(lambda: call(0))
    v.oblige("outcome", z3.BoolVal(kind == "ok" or end == "raise"))
    w.clean("afterwards")


@contract(X + "fix", name=X + "fix (other threads)")
def _(v):
    w = World(v)
    x, r0, r1 = v.obj("x"), v.obj("r0"), v.obj("r1")
    def plan(who, y):
        n = len(w.ran)
        if n == 1:
            v.thread(1)
            r = v.total("the same call in another thread", lambda: v.call(w.fs[0], x))
            v.oblige("runs there", z3.BoolVal(len(w.ran) == 2)); v.same("with its own value", r, r1)
            v.thread(0)
            q = v.total("the repeated call in this thread", lambda: v.call(w.fs[0], x))
            v.oblige("does not run", z3.BoolVal(len(w.ran) == 2)); w.check_bottom("repeated", q, 0, x)
            return r0
        return r1
    w.plan = plan
    v.same("value", v.total("call", lambda: v.call(w.fs[0], x)), r0)
    w.clean("afterwards")


@contract(X + "fixtco", name=X + "fixtco (chains of jumps)", variants=[(p, b, e) for p in PATTERNS for b in ("value", "function") for e in ("return", "raise")])
def _(v, var):
    """f(x0) jumps to f or g (x1), which jumps on; the last one returns or raises"""
    pat, bottom, end = var
    w = World(v, "fixtco", bottom)
    xs = [v.obj(f"x{k}") for k in range(len(pat))]
    r0, exc = v.obj("r"), mkexc(ValueError)
    depths = []
    def plan(who, x):
        k = len(w.ran) - 1
        depths.append(v.c.depth)
        if k + 1 < len(pat): return v.call("unpythonic.tco:jump", w.fs[pat[k + 1]], xs[k + 1])
        if end == "raise": raise PyRaise(exc)
        return r0
    w.plan = plan
    kind, r = v.attempt(lambda: v.call(w.fs[0], xs[0]))
    stop = next((k for k in range(1, len(pat)) if v.case(z3.Or([xs[j].t == xs[k].t for j in range(k) if pat[j] == pat[k]] + [z3.BoolVal(False)]))), None)
    n = stop if stop is not None else len(pat)
    v.oblige("the functions of the chain run, in order, until a repeated call", z3.BoolVal([i for i, _ in w.ran] == list(pat[:n])))
    for (_, x), y in zip(w.ran, xs): v.same("with the arguments of the jump", x, y)
    v.oblige("the stack does not grow", z3.BoolVal(len(set(depths)) <= 1))
    if stop is not None:
        v.oblige("returns", z3.BoolVal(kind == "ok"))
        if kind == "ok": w.check_bottom("a repeated call", r, pat[stop], xs[stop])
    elif end == "raise":
        v.oblige("the exception reaches the caller", z3.BoolVal(kind == "raise"))
        if kind == "raise": v.same("the same exception", r, exc)
    else:
        v.oblige("returns", z3.BoolVal(kind == "ok"))
        if kind == "ok": v.same("the value at the end of the chain", r, r0)
    del w.bots[:]
    w.clean("afterwards")


@contract(X + "fix", name=X + "fix, fixtco (memoized)", variants=["fix", "fixtco"])
def _(v, deco):
    w = World(v, deco, memo=True)
    x, y, r0, r1 = v.obj("x"), v.obj("y"), v.obj("r0"), v.obj("r1")
    v.public(r0, "unpythonic.fun"); v.public(r1, "unpythonic.fun")
    w.plan = lambda who, z: r0 if len(w.ran) == 1 else r1
    v.same("value", v.total("call", lambda: v.call(w.fs[0], x)), r0)
    r = v.total("second call", lambda: v.call(w.fs[0], y))
    if v.case(x.t == y.t): v.same("the value computed before", r, r0); v.oblige("not computed again", z3.BoolVal(len(w.ran) == 1))
    else: v.same("its own value", r, r1); v.oblige("computed once", z3.BoolVal(len(w.ran) == 2))


@contract(X + "fixtco", name=X + "fixtco (a chain inside another call)", variants=["return", "raise", "bottom"])
def _(v, end):
    """f(x0) calls g(x1), which jumps to g(x2), which returns, raises or repeats; whichever it was, f can then call g(x1), g(x2) afresh"""
    w = World(v, "fixtco")
    x0, x1, x2 = v.obj("x0"), v.obj("x1"), v.obj("x2")
    v.assume(x1.t != x2.t)
    r0, r1, r2, exc = v.obj("r0"), v.obj("r1"), v.obj("r2"), mkexc(ValueError)
    def plan(who, x):
        k = len(w.ran) - 1
        if k == 0:
            kind, r = v.attempt(lambda: v.call(w.fs[1], x1))
            v.oblige("outcome of the inner chain", z3.BoolVal(kind == ("raise" if end == "raise" else "ok")))
            if kind == "ok": v.same("value of the inner chain", r, w.B if end == "bottom" else r1)
            n = len(w.ran)
            w.plan = lambda who_, x_: r2
            y = x1 if v.choose(2) else x2
            v.same("the same call, made afresh", v.total("afresh", lambda: v.call(w.fs[1], y)), r2)
            v.oblige("it runs", z3.BoolVal(len(w.ran) == n + 1))
            v.same("the enclosing call is still in progress", v.total("enclosing", lambda: v.call(w.fs[0], x0)), w.B)
            return r0
        if k == 1: return v.call("unpythonic.tco:jump", w.fs[1], x2)
        if k == 2 and end == "bottom": return v.call("unpythonic.tco:jump", w.fs[1], x1)
        if end == "raise": raise PyRaise(exc)
        return r1
    w.plan = plan
    v.same("value", v.total("call", lambda: v.call(w.fs[0], x0)), r0)
    w.clean("afterwards")

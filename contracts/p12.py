"""P12: let and sequencing constructs bind, scope and order as documented."""
from spec import *
from lib import *
L, LL, S = "unpythonic.let:", "unpythonic.lispylet:", "unpythonic.seq:"
TRUSTED = ["arity_includes(f, 1) answers for the callable as P20 states (represented here by its three possible answers)",
           "env behaves as P11 states (its real code runs here)"]
ASSUMPTIONS = ["binding forms are proved for up to three bindings and do/do0 for up to three assignments or three items mixed with any number of plain ones (each binding is handled by the same code, whatever came before); begin/lazy_begin/do over plain items for any number of items"]

MODS = {"let": L, "lispylet": LL}
NAMES = ["a", "b", "c"]


def base(v, arity="yes"):
    v.call("unpythonic.lazyutil:_init_module"); v.call("unpythonic.funutil:_init_module")
    def inc(p, a, kw):
        if arity == "unknown": raise PyRaise(mkexc(v.get("unpythonic.arity:UnknownArity")))
        return arity == "yes"
    v.p.summaries["unpythonic.arity:arity_includes"] = inc


def isenv(v, e): v.oblige("an environment", z3.BoolVal(isinstance(e, InstObj) and e.cls is v.get("unpythonic.env:env")))


def shows(v, e, st, what):
    """the environment e has exactly the bindings st"""
    isenv(v, e)
    v.same(what + ": names", v.items(e), CSeq(list(st)))
    for n in st: v.same(what + ": value", v.p.getattr(e, n), st[n])


def form(v, mod, kind, body, binds):
    """let/letrec form with the bindings, or None for the decorators"""
    if mod == "let": return v.call(L + kind, body, **binds)
    return v.call(LL + kind, tuple((k, x) for k, x in binds.items()), body)


def deco(v, mod, kind, binds):
    if mod == "let": return v.call(L + kind, **binds)
    return v.call(LL + kind, tuple((k, x) for k, x in binds.items()))


def bindings(v, n, rec, log, ncall):
    """n bindings; with rec, each is a plain value or a function of the environment; gives (initializers, final values)"""
    final = {}
    init = {}
    for i, k in enumerate(NAMES[:n]):
        val = v.obj("val_" + k)
        if rec and v.choose(2):
            before = dict(final)
            def f(p, args, kw, i=i, before=before, val=val, k=k):
                v.oblige("initializer gets the environment alone", z3.BoolVal(len(args) == 1 and not kw))
                log.append((k, args[0]))
                shows(v, args[0], before, "an initializer sees exactly the earlier bindings")
                return val
            init[k] = Fn(f, "init_" + k)
        else:
            if rec: v.assume(z3.Not(z3.Function("py_callable", U, B)(val.t)))
            init[k] = val
        final[k] = val
    return init, final


def no_apply(v):
    def apply(p, fn, args, kw): v.oblige("values are not called", z3.BoolVal(False)); return SU(z3.Const("junk", U))
    v.c.on_apply = apply


@contract(L + "_let", name="unpythonic.let, unpythonic.lispylet: let, letrec", variants=[(m, k, a) for m in MODS for k in ("let", "letrec") for a in ("yes", "unknown")])
def _(v, var):
    mod, kind, ar = var
    base(v, ar); no_apply(v)
    n = v.choose(4)
    log, ran = [], []
    init, final = bindings(v, n, kind == "letrec", log, 0)
    out = v.obj("out")
    def body(p, args, kw):
        v.oblige("the body gets the environment alone", z3.BoolVal(len(args) == 1 and not kw))
        ran.append(args[0])
        shows(v, args[0], final, "the body sees all the bindings")
        v.must_raise("no new names in the body", AttributeError, lambda: p.setattr(args[0], "new", 1))
        z = SU(z3.Const("z", U))
        if n: v.total("rebinding", lambda: p.setattr(args[0], "a", z)); v.same("rebound", p.getattr(args[0], "a"), z)
        return out
    r = v.total("let", lambda: form(v, mod, kind, Fn(body, "body"), init))
    v.same("the value of the form is the value of its body", r, out)
    v.oblige("the body ran once", z3.BoolVal(len(ran) == 1))
    v.oblige("each initializer ran once, in order", z3.BoolVal([k for k, _ in log] == [k for k in init if isinstance(init[k], Fn)]))
    v.oblige("all see the same environment", z3.BoolVal(all(e is ran[0] for _, e in log)))
    r2 = v.total("again", lambda: form(v, mod, kind, Fn(body, "body"), init))
    v.oblige("a fresh environment for each evaluation", z3.BoolVal(len(ran) == 2 and ran[0] is not ran[1]))


@contract(L + "_let", name="unpythonic.let, unpythonic.lispylet: let, letrec (refusals)", variants=[(m, k) for m in MODS for k in ("let", "letrec")])
def _(v, var):
    mod, kind = var
    how = v.choose(4)
    base(v, "no" if how else "yes"); no_apply(v)
    x, log = v.obj("x"), []
    f = Fn(lambda p, a, kw: log.append(1), "f")
    v.assume(z3.Not(z3.Function("py_callable", U, B)(x.t)))
    if how == 0:
        v.assume(v.truthy(x))
        v.must_raise("the body must be callable", TypeError, lambda: form(v, mod, kind, x, {"a": 1}))
    elif how == 1: v.must_raise("the body must take the environment", TypeError, lambda: form(v, mod, kind, f, {"a": x}))
    elif how == 2:
        if kind == "letrec": v.must_raise("an initializer must take the environment", TypeError, lambda: form(v, mod, kind, None, {"a": f}))
        else: v.same("a function is an ordinary value in let", v.p.getattr(v.total("let", lambda: form(v, mod, kind, None, {"a": f})), "a"), f)
    else:
        if mod == "lispylet": v.must_raise("a name may be bound once", AttributeError, lambda: v.call(LL + kind, (("a", 1), ("a", 2)), None))
    v.oblige("nothing was called", z3.BoolVal(not log))


@contract(L + "_dlet", name="unpythonic.let, unpythonic.lispylet: dlet, dletrec, blet, bletrec", variants=[(m, k) for m in MODS for k in ("dlet", "dletrec", "blet", "bletrec")])
def _(v, var):
    mod, kind = var
    base(v); no_apply(v)
    n = v.choose(3)
    log, envs = [], []
    init, final = bindings(v, n, kind.endswith("rec"), log, 0)
    x, k, out, z = v.obj("x"), v.obj("k"), v.obj("out"), v.obj("z")
    ninit = sum(isinstance(f, Fn) for f in init.values())
    mk = deco(v, mod, kind, init)
    v.oblige("nothing evaluated before decorating", z3.BoolVal(not log))
    if kind.startswith("b"):
        def body(p, args, kw):
            v.oblige("the body gets the environment alone, by name", z3.BoolVal(not args and set(kw) == {"env"})); envs.append(kw["env"]); shows(v, kw["env"], final, "the body sees all the bindings"); return out
        v.same("the name is bound to the value of the body", v.total("blet", lambda: v.call(mk, Fn(body, "body"))), out)
        v.oblige("ran once", z3.BoolVal(len(envs) == 1)); v.oblige("initializers once", z3.BoolVal(len(log) == ninit)); return
    cur = [dict(final), dict(final)]
    def mkbody(w):
        def body(p, args, kw):
            v.oblige("arguments, and the environment by name", z3.BoolVal(len(args) == 1 and set(kw) == {"k", "env"})); v.same("argument", args[0], x); v.same("named argument", kw["k"], k)
            envs.append((w, kw["env"])); shows(v, kw["env"], cur[w], "its environment as its last call left it")
            if n: v.total("rebinding", lambda: p.setattr(kw["env"], "a", z)); cur[w]["a"] = z
            return out
        return Fn(body, f"body{w}")
    f = v.total("decorate", lambda: v.call(mk, mkbody(0))); g = v.total("decorate", lambda: v.call(mk, mkbody(1)))
    v.oblige("initializers ran once per decorated function", z3.BoolVal(len(log) == 2 * ninit)); v.oblige("not called yet", z3.BoolVal(not envs))
    for h in (f, g, f, g): v.same("value", v.total("call", lambda: v.call(h, x, k=k)), out)
    v.oblige("one private environment each", z3.BoolVal(len(envs) == 4 and envs[0][1] is envs[2][1] and envs[1][1] is envs[3][1] and envs[0][1] is not envs[1][1] and [w for w, _ in envs] == [0, 1, 0, 1]))
    v.oblige("initializers did not run again", z3.BoolVal(len(log) == 2 * ninit))


@contract(L + "let", name="unpythonic.let: any name can be bound", variants=["let", "letrec", "dlet", "dletrec"])
def _(v, kind):
    base(v); no_apply(v)
    name = ["mode", "env", "bindings", "self", "k", "v"][v.choose(6)]
    val, out = v.obj("val"), v.obj("out")
    v.assume(z3.Not(z3.Function("py_callable", U, B)(val.t)))
    if kind.startswith("d"): r = v.total("call", lambda: v.call(v.call(v.p.call(v.get(L + kind), [], {name: val}), Fn(lambda p, a, kw: p.getattr(kw["env"], name), "body"))))
    else: r = v.total("let", lambda: v.p.call(v.get(L + kind), [Fn(lambda p, a, kw: p.getattr(a[0], name), "body")], {name: val}))
    v.same("its value", r, val)


# ---- sequencing
@contract(S + "begin", name="unpythonic.seq:begin, begin0", variants=["begin", "begin0"])
def _(v, which):
    base(v)
    s = v.source("vals", "tuple")
    r = v.total("begin", lambda: md.call_symargs(v.p, v.get(S + which), s.seq, {}))
    want = z3.If(s.n == 0, toU(None), toU(sat(s.seq, s.n - 1 if which == "begin" else z3.IntVal(0))))
    v.oblige("the last (first) value, None for none", toU(r) == want)


@contract(S + "lazy_begin", name="unpythonic.seq:lazy_begin, lazy_begin0 (any number)", variants=["lazy_begin", "lazy_begin0"])
def _(v, which):
    base(v)
    c = v.c
    f = z3.Function("body", I, U); idx = z3.Function("body_idx", U, I); val = z3.Function("val", I, U)
    def elem(i): c.assume(idx(f(i)) == i); return SU(f(i))
    s = v.source("bodys", "tuple", elem)
    g = HObj(k=0)
    c.hints.append(lambda i: SU(val(i)))
    def apply(p, fn, args, kw):
        k = iz(g.get("k")); c.index(k)
        v.oblige("called with nothing", z3.BoolVal(not args and not kw)); v.oblige("left to right, each once", z3.And(fn.t == f(k), k < s.n))
        g.set("k", mki(k + 1)); c.index(k + 1)
        return SU(val(k))
    c.on_apply = apply
    r = v.total("run", lambda: md.call_symargs(v.p, v.get(S + which), s.seq, {}))
    v.oblige("all evaluated", iz(g.get("k")) == s.n)
    v.oblige("the last (first) value, None for none", toU(r) == z3.If(s.n == 0, toU(None), val(s.n - 1 if which == "lazy_begin" else z3.IntVal(0))))


KIND = ["value", "call", "assign", "assigncall"]


@contract(S + "do", name="unpythonic.seq:do, do0 (assignments)", variants=[(w, n, ar) for w in ("do", "do0") for n in (1, 2, 3) for ar in ("yes", "unknown")])
def _(v, var):
    which, n, ar = var
    base(v, ar); no_apply(v)
    kinds = [KIND[v.choose(4)] for _ in range(n)]
    names = [("x" if i == 0 else "xy"[v.choose(2)]) if k.startswith("assign") else None for i, k in enumerate(kinds)]
    vals = [v.obj(f"val{i}") for i in range(n)]
    runs = []
    st = {}
    def visible(e):
        isenv(v, e)
        for m in "xy":
            if m in st: v.same("assignments are visible to the later items, with the latest value", v.p.getattr(e, m), st[m])
            else: v.must_raise("names not assigned yet are unbound", AttributeError, lambda: v.p.getattr(e, m))
    items = []
    for i, (k, name) in enumerate(zip(kinds, names)):
        if k.endswith("call"):
            def f(p, args, kw, i=i, name=name):
                v.oblige("gets the environment alone", z3.BoolVal(len(args) == 1 and not kw)); runs.append((i, args[0]))
                for j in range(i):
                    if names[j]: st[names[j]] = vals[j]
                visible(args[0]); return vals[i]
            x = Fn(f, f"item{i}")
        else: x = vals[i]; v.assume(z3.Not(z3.Function("py_callable", U, B)(x.t)))
        items.append(v.call(S + "assign", **{name: x}) if name else x)
        if not name and k == "value": v.assume(z3.Not(bz(md.py_isinstance(v.p, x, v.get(S + "DoAssign")))))
    for _ in range(2):
        st.clear(); k0 = len(runs)
        r = v.total("do", lambda: v.call(S + which, *items))
        v.same("the last (first) value", r, vals[-1 if which == "do" else 0])
        v.oblige("left to right, each exactly once", z3.BoolVal([i for i, _ in runs[k0:]] == [i for i, k in enumerate(kinds) if k.endswith("call")]))
    es = [e for _, e in runs]; h = len(es) // 2
    v.oblige("one environment per run, not shared", z3.BoolVal(all(e is es[0] for e in es[:h]) and all(e is es[h] for e in es[h:]) and (not h or es[0] is not es[h])))


@contract(S + "do", name="unpythonic.seq:do (any number of items)")
def _(v):
    base(v)
    c = v.c
    f = z3.Function("item", I, U); val = z3.Function("val", I, U); idx = z3.Function("item_idx", U, I)
    DA = v.get(S + "DoAssign")
    cal = z3.Function("py_callable", U, B)
    def elem(i): c.assume(idx(f(i)) == i); c.assume(z3.Not(bz(md.py_isinstance(v.p, SU(f(i)), DA)))); return SU(f(i))
    s = v.source("items", "tuple", elem)
    v.assume(s.n >= 1)
    cnt = z3.Function("callables_below", I, I)
    v.assume(cnt(0) == 0)
    c.recdef(lambda i: z3.Implies(i >= 0, cnt(i + 1) == cnt(i) + z3.If(cal(f(i)), 1, 0)))
    c.hints.append(lambda i: mki(cnt(i)))
    c.hints.append(lambda i: SU(z3.If(cal(f(i)), val(i), f(i))))
    g = HObj(k=0)
    def apply(p, fn, args, kw):
        i = idx(fn.t); c.index(i)
        v.oblige("gets the environment alone", z3.BoolVal(len(args) == 1 and not kw and isinstance(args[0], InstObj)))
        v.oblige("left to right, each callable item once", z3.And(cal(fn.t), i >= 0, i < s.n, iz(g.get("k")) == cnt(i)))
        g.set("k", mki(iz(g.get("k")) + 1))
        return SU(val(i))
    c.on_apply = apply
    r = v.total("run", lambda: md.call_symargs(v.p, v.get(S + "do"), s.seq, {}))
    e = s.n - 1
    elem(e); c.index(e); c.index(s.n)
    v.oblige("all callable items ran", iz(g.get("k")) == cnt(s.n))
    v.oblige("the last value", toU(r) == z3.If(cal(f(e)), val(e), f(e)))


@contract(S + "assign")
def _(v):
    x = v.obj("x")
    how = v.choose(3)
    if how == 0: v.must_raise("exactly one", ValueError, lambda: v.call(S + "assign"))
    elif how == 1: v.must_raise("exactly one", ValueError, lambda: v.call(S + "assign", a=x, b=1))
    else: v.same("name and value", v.items(v.total("assign", lambda: v.call(S + "assign", a=x))), CSeq(("a", x)))

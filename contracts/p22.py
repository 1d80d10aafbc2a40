"""P22: composition and pipes thread values through every stage once, in order."""
from spec import *
from lib import *
F, S, FU = "unpythonic.fun:", "unpythonic.seq:", "unpythonic.funutil:"
TRUSTED = ["reducel is the left fold proc(elt, acc) (proved under P08); curry is represented by its contract (P21)"]
ASSUMPTIONS = ["stages are opaque callables, values are opaque and contain no promises (forcing them: P10)",
               "several values between the stages are proved for up to two positional and one named value per stage; argument adapters for any number of arguments where the contract says so, else up to four"]


def base(v):
    v.call("unpythonic.lazyutil:_init_module"); v.call("unpythonic.funutil:_init_module")
    v.p.summaries["unpythonic.lazyutil:force"] = lambda p, a, kw: a[0]
    def ga(p, o, k): throw(AttributeError, k)
    v.c.on_getattr = ga
    v.c.on_setattr = lambda p, o, k, x: None
    v.c.exitp = v.get(S + "exitpipe")
    v.c.jump = toU(v.get("unpythonic.lazyutil:jump"))


def ordinary(v, t):
    """a stage is a callable of the user's: neither the pipe terminator nor the trampoline's jump"""
    t = t.t if isinstance(t, SU) else t
    v.c.assume(z3.And(t != toU(v.c.exitp), t != v.c.jump))


app = z3.Function("app", U, U, U)


def stages(v, kind="tuple", name="fs"):
    """any number of stages; st.count = how many have run"""
    c = v.c
    f = z3.Function("stage", I, U)
    idx = z3.Function("stage_idx", U, I)
    def elem(i):
        c.assume(idx(f(i)) == i); ordinary(v, f(i))
        return SU(f(i))
    s = v.source(name, kind, elem)
    return f, idx, s


@contract(S + "pipe1", variants=["pipe1", "pipe"])
def _(v, which):
    base(v)
    f, idx, s = stages(v)
    c = v.c
    x0 = v.obj("x0")
    val = z3.Function("val", I, U)
    v.assume(val(0) == x0.t)
    c.recdef(lambda i: z3.Implies(i >= 0, val(i + 1) == app(f(i), val(i))))
    c.hints.append(lambda i: SU(val(i)))
    g = HObj(k=0)
    def apply(p, fn, args, kw):
        k = iz(g.get("k")); c.index(k)
        v.oblige("one argument", z3.BoolVal(len(args) == 1 and not kw))
        v.oblige("stages in order, each once", z3.And(fn.t == f(k), k < s.n))
        v.oblige("with the value of the stage before", toU(args[0]) == val(k))
        g.set("k", mki(k + 1)); c.index(k + 1)
        return SU(val(k + 1))
    c.on_apply = apply
    r = v.total("pipe", lambda: md.call_symargs(v.p, v.get(S + which), sconcat(CSeq((x0,)), s.seq), {}))
    c.index(s.n)
    v.oblige("every stage ran", iz(g.get("k")) == s.n)
    v.oblige("value of the nested application", toU(r) == val(s.n))


# ---- several values between stages
def vals(v, tag, shape):
    """shape: (number of positional values, names)"""
    n, names = shape
    return [v.obj(f"{tag}_{i}") for i in range(n)], {k: v.obj(f"{tag}_{k}") for k in names}


def mkvals(v, pos, kw):
    if len(pos) == 1 and not kw: return pos[0]
    return v.call(FU + "Values", *pos, **kw)


SH = [(1, ()), (2, ()), (1, ("k",)), (0, ("k",)), (2, ("k",))]


def chainfns(v, shapes, log):
    """stage i must get the values of shape i and gives those of shape i + 1"""
    vs = [vals(v, f"v{i}", sh) for i, sh in enumerate(shapes)]
    fs = []
    for i in range(len(shapes) - 1):
        def f(p, args, kw, i=i):
            log.append(i)
            pos, k = vs[i]
            v.oblige("values of the stage before", z3.BoolVal(len(args) == len(pos) and set(kw) == set(k)))
            for a, b in zip(args, pos): v.same("positional values", a, b)
            for n in k: v.same("named values", kw[n], k[n])
            return mkvals(v, *vs[i + 1])
        fs.append(Fn(f, f"f{i}"))
    return vs, fs


def is_result(v, r, want):
    pos, kw = want
    if len(pos) == 1 and not kw: v.same("value of the nested application", r, pos[0]); return
    ok = isinstance(r, InstObj) and r.cls is v.get(FU + "Values")
    v.oblige("several values", z3.BoolVal(ok))
    v.same("positional values of the result", v.p.getattr(r, "rets"), tuple(pos))
    kk = v.p.getattr(r, "kwrets")
    v.same("named values of the result", CSeq(sorted(to_seq(v.p, v.method(kk, "items")).items, key=lambda t: t[0])), CSeq(sorted(kw.items())))


CH = [(a, b) for a in SH for b in SH] + [(a, b, (2, ("k",)), c) for a in SH[:2] for b in SH for c in (SH[0], SH[3])]
WAYS = ["pipe", "composel", "composer", "composeli", "composeri", "piped", "lazy_piped"]


@contract(S + "pipe", name="unpythonic.seq:pipe, composel, composer, piped, lazy_piped (several values)", variants=WAYS)
def _(v, way):
    base(v)
    shapes = CH[v.choose(len(CH))]
    log = []
    vs, fs = chainfns(v, shapes, log)
    pos, kw = vs[0]
    n = len(fs)
    if way == "pipe": r = v.total("pipe", lambda: v.call(S + "pipe", mkvals(v, pos, kw), *fs))
    elif way.startswith("compose"):
        order = fs if "composel" in way else fs[::-1]
        c = v.total("compose", lambda: v.call(F + way, ListObj(CSeq(order))) if way.endswith("i") else v.call(F + way, *order))
        v.oblige("composing runs nothing", z3.BoolVal(not log))
        r = v.total("call", lambda: v.call(c, *pos, **kw))
    else:
        o = v.total("construct", lambda: v.call(S + way, *pos, **kw))
        for i, f in enumerate(fs):
            o2 = v.total("extend", lambda: md.binop(v.p, ast.BitOr(), o, f))
            v.oblige("a stage runs when added (eager) or not at all (lazy)", z3.BoolVal(log == (list(range(i + 1)) if way == "piped" else [])))
            v.oblige("a new pipe", z3.BoolVal(o2 is not o))
            o = o2
        r = v.total("exit", lambda: md.binop(v.p, ast.BitOr(), o, v.get(S + "exitpipe")))
    v.oblige("each stage once, in order", z3.BoolVal(log == list(range(n))))
    is_result(v, r, vs[-1])


@contract(S + "piped1", name="unpythonic.seq:piped1, piped, lazy_piped1, lazy_piped (step)", variants=["piped1", "lazy_piped1", "piped", "lazy_piped"])
def _(v, way):
    """extending a pipe never changes the original; from any pipe (here: of zero to three stages)"""
    base(v)
    log = []
    x = v.obj("x")
    c = v.c
    calls = []
    def apply(p, fn, args, kw):
        v.oblige("one argument", z3.BoolVal(len(args) == 1 and not kw))
        calls.append((fn, args[0]))
        return SU(app(fn.t, toU(args[0])))
    c.on_apply = apply
    n = v.choose(4)
    fs = [v.obj(f"f{i}") for i in range(n + 1)]; g = v.obj("g")
    for q in fs + [g]: ordinary(v, q)
    def run(x, fs):
        t = x.t
        for f in fs: t = app(f.t, t)
        return t
    o = v.total("construct", lambda: v.call(S + way, x))
    for f in fs[:n]: o = v.total("extend", lambda: md.binop(v.p, ast.BitOr(), o, f))
    lazy = way.startswith("lazy")
    v.oblige("stages run so far", z3.BoolVal(len(calls) == (0 if lazy else n)))
    a = v.total("extend", lambda: md.binop(v.p, ast.BitOr(), o, fs[n])); b = v.total("extend", lambda: md.binop(v.p, ast.BitOr(), o, g))
    v.oblige("one run per extension (eager) or none (lazy)", z3.BoolVal(len(calls) == (0 if lazy else n + 2)))
    def ex(o): return v.total("exit", lambda: md.binop(v.p, ast.BitOr(), o, v.get(S + "exitpipe")))
    k0 = len(calls)
    v.oblige("the original is unchanged", toU(ex(o)) == run(x, fs[:n])); v.oblige("lazy stages run at the exit, once each", z3.BoolVal(len(calls) - k0 == (n if lazy else 0)))
    v.oblige("first extension", toU(ex(a)) == run(x, fs)); v.oblige("second extension", toU(ex(b)) == run(x, fs[:n] + [g]))
    v.oblige("running again gives the same", toU(ex(a)) == run(x, fs))
    if lazy:
        for (fn, arg), f, t in zip(calls[k0:], fs[:n], [run(x, fs[:i]) for i in range(n)]): v.oblige("in order", z3.And(fn.t == f.t, toU(arg) == t))


@contract(S + "lazy_piped1", name="unpythonic.seq:lazy_piped1, lazy_piped (any number of stages)", variants=["lazy_piped1", "lazy_piped"])
def _(v, way):
    base(v)
    f, idx, s = stages(v)
    c = v.c
    x0 = v.obj("x0")
    val = z3.Function("val", I, U)
    v.assume(val(0) == x0.t)
    c.recdef(lambda i: z3.Implies(i >= 0, val(i + 1) == app(f(i), val(i))))
    c.hints.append(lambda i: SU(val(i)))
    g = HObj(k=0)
    def apply(p, fn, args, kw):
        k = iz(g.get("k")); c.index(k)
        v.oblige("one argument", z3.BoolVal(len(args) == 1 and not kw))
        v.oblige("stages in order, each once", z3.And(fn.t == f(k), k < s.n)); v.oblige("with the value of the stage before", toU(args[0]) == val(k))
        g.set("k", mki(k + 1)); c.index(k + 1)
        return SU(val(k + 1))
    c.on_apply = apply
    o = v.call(S + way, x0)
    if "_funcs" not in o.cells: raise Unsupported("representation of lazy pipes")
    o.set("_funcs", s.value)
    if v.choose(2):
        h = v.obj("h"); ordinary(v, h)
        e = v.total("extend", lambda: md.binop(v.p, ast.BitOr(), o, h))
        v.same("extension adds exactly one stage", v.items(e.cells["_funcs"]), sconcat(s.seq, CSeq((h,)))); v.same("original unchanged", v.items(o.cells["_funcs"]), s.seq); return
    r = v.total("exit", lambda: md.binop(v.p, ast.BitOr(), o, v.get(S + "exitpipe")))
    c.index(s.n)
    v.oblige("every stage ran", iz(g.get("k")) == s.n); v.oblige("value", toU(r) == val(s.n))


# ---- composition of any number of functions, by induction with the contract of reducel
R = z3.Function("composed", I, U, U)     # composed(k, x): the first k functions, composed, applied to x


@contract(F + "composel1i", name="unpythonic.fun:composel1, composer1, composel, composer (any number)", variants=["composel1i", "composer1i", "composeli", "composeri", "composel1", "composer1", "composel", "composer"])
def _(v, way):
    base(v)
    left = "composel" in way
    f, idx, s = stages(v, "tuple" if not way.endswith("i") else ["list", "iterator", "tuple"][v.choose(3)])
    c = v.c
    v.assume(s.n >= 1)
    acc = z3.Function("acc", I, U)       # the composition of the first k functions, as a callable
    log = []
    def step_ax(k, x): return R(k + 1, x) == (app(f(k), R(k, x)) if left else R(k, app(f(k), x)))
    def apply(p, fn, args, kw):
        v.oblige("one argument", z3.BoolVal(len(args) == 1 and not kw))
        a = toU(args[0])
        d = fn.t.decl().name()
        log.append((fn.t, a))
        if d == "acc": return SU(R(fn.t.arg(0), a))
        if d == "stage": return SU(app(fn.t, a))
        raise Unsupported("call of an unknown callable")
    c.on_apply = apply
    def reducel(p, a, kw):
        """fold induction: the base case is the first function; the step is checked here for an arbitrary k"""
        proc, fs = a[0], to_seq(p, a[1])
        v.oblige("folds over the functions given", z3.And(z3.BoolVal(len(a) == 2 and not kw), same_seq(fs, s.seq)))
        k = z3.Int("k"); x = v.obj("x")
        v.assume(z3.And(k >= 1, k < s.n))
        ordinary(v, acc(k))
        r = p.call(proc, [sat(s.seq, k), SU(acc(k))])
        v.oblige("composing runs nothing", z3.BoolVal(not log))
        y = v.total("call of the composition", lambda: p.call(r, [x]))
        v.assume(step_ax(k, x.t))
        v.oblige("step: nested application in the stated order", toU(y) == R(k + 1, x.t))
        v.oblige("step: each once", z3.BoolVal(len(log) == 2 and {t.decl().name() for t, _ in log} == {"acc", "stage"}))
        return SU(acc(s.n))
    if v.choose(2):
        v.p.summaries["unpythonic.fold:reducel"] = reducel
        v.assume(s.n >= 2)
        r = v.total("compose", lambda: v.call(F + way, s.value) if way.endswith("i") else md.call_symargs(v.p, v.get(F + way), s.seq, {}))
        v.oblige("the fold is the result", toU(r) == acc(s.n))
    else:                                   # one function
        v.p.summaries["unpythonic.fold:reducel"] = lambda p, a, kw: sat(to_seq(p, a[1]), z3.IntVal(0))
        v.assume(s.n == 1)
        r = v.total("compose", lambda: v.call(F + way, s.value) if way.endswith("i") else md.call_symargs(v.p, v.get(F + way), s.seq, {}))
        x = v.obj("x")
        y = v.total("call", lambda: v.call(r, x))
        v.oblige("one function: itself", toU(y) == app(f(z3.IntVal(0)), x.t))


@contract(F + "composel1", name="unpythonic.fun:composel1, composer1 (whole, up to five functions)", variants=["composel1", "composer1", "composel1i", "composer1i", "composelc", "composerc", "composelci", "composerci"])
def _(v, way):
    base(v)
    n = 1 + v.choose(5)
    fs = [v.obj(f"f{i}") for i in range(n)]
    cur = z3.Function("curried", U, U)
    for f in fs: ordinary(v, f); ordinary(v, cur(f.t))
    v.p.summaries[F + "curry"] = lambda p, a, kw: SU(cur(toU(a[0])))
    log = []
    def apply(p, fn, args, kw): log.append(fn.t); return SU(app(fn.t, toU(args[0])))
    v.c.on_apply = apply
    r = v.total("compose", lambda: v.call(F + way, ListObj(CSeq(fs))) if way.endswith("i") else v.call(F + way, *fs))
    x = v.obj("x")
    y = v.total("call", lambda: v.call(r, x))
    w = lambda f: cur(f.t) if way.rstrip("i").endswith("c") else f.t
    t = x.t
    order = fs if "composel" in way else fs[::-1]
    for f in order: t = app(w(f), t)
    v.oblige("nested application", toU(y) == t)
    v.oblige("each once, in order", z3.And([z3.BoolVal(len(log) == n)] + [a == w(f) for a, f in zip(log, order)]))


# ---- adapters
@contract(F + "flip")
def _(v):
    base(v)
    s = v.source("args", "tuple"); k = v.obj("k")
    out = SU(z3.Const("out", U))
    seen = []
    f = Fn(lambda p, a, kw: call(p, CSeq(a), kw), "f")
    def call(p, seq, kw):
        seen.append(1)
        i = z3.Int("i"); v.assume(z3.And(i >= 0, i < s.n)) if False else None
        v.same("arguments reversed", seq, SSeq(s.n, lambda j: s.at(z3.simplify(s.n - 1 - j)))); v.oblige("named arguments", z3.BoolVal(set(kw) == {"kw"})); v.same("named arguments", kw["kw"], k)
        return out
    f.seqargs = call
    g = v.total("flip", lambda: v.call(F + "flip", f))
    r = v.total("call", lambda: md.call_symargs(v.p, g, s.seq, {"kw": k}))
    v.same("its value", r, out); v.oblige("called once", z3.BoolVal(len(seen) == 1))


def rec(v, log, res=None):
    def f(p, a, kw): log.append((tuple(a), dict(kw))); return res if res is not None else SU(z3.Const("out", U))
    return Fn(f, "f")


def anyk(v, n):
    """any integer: each one near the range on its own, the others together"""
    i = v.choose(2 * n + 4)
    if i < 2 * n + 3: return i - n - 1
    k = v.int("k"); v.assume(z3.Or(iz(k) < -n - 1, iz(k) > n + 1)); return k


@contract(F + "rotate", variants=[0, 1, 2, 3, 4])
def _(v, n):
    base(v)
    log = []
    k = anyk(v, n)
    args = [v.obj(f"a{i}") for i in range(n)]
    g = v.call(v.call(F + "rotate", k), rec(v, log))
    kind, r = v.attempt(lambda: v.call(g, *args, kw=5))
    ok = z3.And(iz(k) > -n, iz(k) < n) if n else z3.BoolVal(False)
    if kind == "raise":
        v.oblige("refused only out of range", z3.Not(ok)); v.exc_is("error", r, IndexError if n else TypeError); v.oblige("not called", z3.BoolVal(not log)); return
    v.oblige("in range", ok); v.oblige("called once", z3.BoolVal(len(log) == 1)); a, kw = log[0]
    v.oblige("named arguments", z3.BoolVal(kw == {"kw": 5})); v.oblige("same number", z3.BoolVal(len(a) == n))
    for i in range(n):
        # the slots turn right by k: argument i arrives at position (i - k) mod n
        for j in range(n): v.oblige("position", z3.Implies((i - iz(k)) % n == j, toU(a[j]) == args[i].t))


@contract(F + "tokth", variants=[0, 1, 2, 3, 4])
def _(v, n):
    base(v)
    log = []
    k = anyk(v, n); args = [v.obj(f"a{i}") for i in range(n)]; y = v.obj("y")
    g = v.call(F + "tokth", k, rec(v, log, y))
    kind, r = v.attempt(lambda: v.call(g, *args, q=7))
    ok = z3.And(iz(k) > -n, iz(k) < n) if n else z3.BoolVal(False)
    if kind == "raise": v.oblige("refused only out of range", z3.Not(ok)); v.exc_is("error", r, IndexError if n else TypeError); v.oblige("not called", z3.BoolVal(not log)); return
    v.oblige("in range", ok); v.oblige("called once with one argument", z3.BoolVal(len(log) == 1 and len(log[0][0]) == 1 and not log[0][1]))
    rets = v.p.getattr(r, "rets")
    v.oblige("same number", z3.BoolVal(len(rets) == n)); v.same("named values", v.p.getitem(v.p.getattr(r, "kwrets"), "q"), 7)
    for i in range(n):
        hit = iz(k) % n == i
        v.oblige("only the named position changes", toU(rets[i]) == z3.If(hit, y.t, args[i].t)); v.oblige("called with that argument", z3.Implies(hit, toU(log[0][0][0]) == args[i].t))


@contract(F + "to", variants=["to1st", "to2nd", "tolast", "to"])
def _(v, which):
    base(v)
    log = []
    a = [v.obj(f"a{i}") for i in range(3)]; y = v.obj("y")
    if which == "to": g = v.total("to", lambda: v.call(F + "to", (0, rec(v, log, y)), (2, Fn(lambda p, b, kw: SU(app(z3.Const("h", U), toU(b[0]))), "h")), (0, Fn(lambda p, b, kw: SU(app(z3.Const("h2", U), toU(b[0]))), "h2"))))
    else: g = v.call(F + which, rec(v, log, y))
    r = v.total("call", lambda: v.call(g, *a))
    h, h2 = z3.Const("h", U), z3.Const("h2", U)
    want = {"to1st": (y, a[1], a[2]), "to2nd": (a[0], y, a[2]), "tolast": (a[0], a[1], y), "to": (SU(app(h2, y.t)), a[1], SU(app(h, a[2].t)))}[which]
    v.same("only the named positions change", v.p.getattr(r, "rets"), want)
    v.same("argument", log[0][0], ({"to1st": a[0], "to2nd": a[1], "tolast": a[2], "to": a[0]}[which],))


@contract(F + "apply", variants=[0, 1, 2])
def _(v, n):
    base(v)
    s = v.source("lst", ["list", "iterator", "tuple", "iterable"][v.choose(4)])
    a = [v.obj(f"a{i}") for i in range(n)]; seen = []
    def call(p, seq, kw):
        seen.append(1); v.same("arguments, then the items of the list", seq, sconcat(CSeq(a), s.seq)); v.same("named argument", kw.get("k"), 3); return 9
    f = Fn(lambda p, b, kw: call(p, CSeq(b), kw), "f"); f.seqargs = call
    v.same("its value", v.total("apply", lambda: v.call(F + "apply", f, *a, s.value, k=3)), 9); v.oblige("called once", z3.BoolVal(len(seen) == 1))


@contract(F + "identity", variants=["identity", "const"])
def _(v, which):
    base(v)
    n, m = v.choose(4), v.choose(2)
    a = [v.obj(f"a{i}") for i in range(n)]; kw = {"k": v.obj("k")} if m else {}
    if which == "identity": r = v.total("call", lambda: v.call(F + "identity", *a, **kw))
    else:
        c = v.total("const", lambda: v.call(F + "const", *a, **kw))
        r = v.total("call", lambda: v.call(c, v.obj("junk"), z=1))
        if n == 1 and not m: v.same("again", v.call(c), r)
    if not n and not m: v.same("nothing", r, None)
    elif n == 1 and not m: v.same("the value", r, a[0])
    else:
        v.same("positional values", v.p.getattr(r, "rets"), tuple(a)); v.same("named values", v.items(v.method(v.p.getattr(r, "kwrets"), "items")), CSeq(list(kw.items())))


@contract(F + "notf")
def _(v):
    base(v)
    log = []
    x, k, y = v.obj("x"), v.obj("k"), v.obj("y")
    g = v.call(F + "notf", rec(v, log, y))
    r = v.total("call", lambda: v.call(g, x, k=k))
    v.oblige("negation", v.truthy(r) == z3.Not(v.truthy(y))); v.same("arguments", log[0][0], (x,)); v.same("named", log[0][1].get("k"), k); v.oblige("once", z3.BoolVal(len(log) == 1))


@contract(F + "andf", name="unpythonic.fun:andf, orf (any number of functions)", variants=["andf", "orf"])
def _(v, which):
    base(v)
    f, idx, s = stages(v)
    c = v.c
    x = v.obj("x")
    isand = which == "andf"
    val = lambda i: app(f(i), x.t)
    T = lambda t: bz(md.py_bool(v.p, SU(t)))
    none = z3.Function("undecided_below", I, B)       # no function below i decides
    v.assume(none(0))
    c.recdef(lambda i: z3.Implies(i >= 0, none(i + 1) == z3.And(none(i), T(val(i)) if isand else z3.Not(T(val(i))))))
    c.preds.append(none)
    c.hints.append(lambda i: SU(val(i)))
    g = HObj(k=0)
    def apply(p, fn, args, kw):
        k = iz(g.get("k")); c.index(k)
        v.oblige("in order, each at most once, only while undecided", z3.And(fn.t == f(k), k < s.n, none(k)))
        v.oblige("the argument", z3.BoolVal(len(args) == 1 and set(kw) == {"q"})); v.same("the argument", args[0], x); v.same("named", kw["q"], 3)
        g.set("k", mki(k + 1)); c.index(k + 1)
        return SU(val(k))
    c.on_apply = apply
    h = v.total("build", lambda: md.call_symargs(v.p, v.get(F + which), s.seq, {}))
    r = v.total("call", lambda: v.call(h, x, q=3))
    k = iz(g.get("k")); c.index(k)
    v.oblige("stops at the first that decides, or after all", z3.Or(k == s.n, z3.And(k > 0, z3.Not(none(k)))))
    if isand: v.oblige("conjunction", z3.And(v.truthy(r) == z3.And(k == s.n, none(k)), z3.Implies(z3.And(none(k), k > 0), toU(r) == val(k - 1)), z3.Implies(k == 0, toU(r) == toU(True))))
    else: v.oblige("disjunction", z3.And(v.truthy(r) == z3.Not(none(k)), z3.Implies(z3.Not(none(k)), toU(r) == val(k - 1))))


@contract(F + "withself")
def _(v):
    base(v)
    log = []
    x, k = v.obj("x"), v.obj("k")
    g = v.call(F + "withself", rec(v, log))
    r = v.total("call", lambda: v.call(g, x, k=k))
    a, kw = log[0]
    v.oblige("gets itself first", z3.BoolVal(len(log) == 1 and len(a) == 2 and a[0] is g and set(kw) == {"k"})); v.same("argument", a[1], x); v.same("named", kw["k"], k); v.same("value", r, SU(z3.Const("out", U)))


@contract(FU + "call", name="unpythonic.funutil:call, callwith", variants=["call", "callwith"])
def _(v, which):
    base(v)
    log = []
    x, y, k = v.obj("x"), v.obj("y"), v.obj("k")
    f = rec(v, log)
    r = v.total("call", lambda: v.call(FU + "call", f, x, y, k=k) if which == "call" else v.call(v.call(FU + "callwith", x, y, k=k), f))
    v.same("value", r, SU(z3.Const("out", U))); v.oblige("once", z3.BoolVal(len(log) == 1)); v.same("arguments", log[0][0], (x, y)); v.same("named", log[0][1].get("k"), k)


@contract(FU + "Values")
def _(v):
    base(v)
    n, m = v.choose(3), v.choose(2)
    a = tuple(v.obj(f"a{i}") for i in range(n)); k = v.obj("k"); kw = {"k": k} if m else {}
    p = v.p
    o = v.total("construct", lambda: v.call(FU + "Values", *a, **kw))
    v.same("rets", p.getattr(o, "rets"), a)
    if n:
        v.same("ret", p.getattr(o, "ret"), a[0]); v.same("by position", p.getitem(o, n - 1), a[n - 1])
    v.oblige("named membership", z3.And(v.truthy(v.contains(o, "k")) == z3.BoolVal(bool(m)), z3.Not(v.truthy(v.contains(o, "z")))))
    if m:
        v.same("by name", p.getitem(o, "k"), k); v.same("get", v.method(o, "get", "k"), k); v.must_raise("iteration refused with names", ValueError, lambda: py_iter(p, o))
    else: v.same("iteration", v.items(o), CSeq(a))
    v.same("get default", v.method(o, "get", "z", 5), 5); v.same("keys", v.items(v.method(o, "keys")), CSeq(list(kw))); v.same("values", v.items(v.method(o, "values")), CSeq(list(kw.values())))
    b = tuple(v.obj(f"b{i}") for i in range(n)); k2 = v.obj("k2")
    o2 = v.call(FU + "Values", *b, **({"k": k2} if m else {}))
    eqs = z3.And([z3.Or(x.t == y.t, md.eqU(x.t, y.t), md.eqU(y.t, x.t)) for x, y in zip(a + ((k,) if m else ()), b + ((k2,) if m else ()))] + [z3.BoolVal(True)])
    for x, y in zip(a + (k,), b + (k2,)): v.assume(md.eqU(x.t, y.t) == md.eqU(y.t, x.t))
    v.oblige("equal iff the values are", z3.And(v.eq(o, o2) == eqs, v.truthy(md.compare(p, ast.NotEq(), o, o2)) == z3.Not(eqs)))
    v.oblige("not equal to a tuple", z3.Not(v.eq(o, a)))


@contract(FU + "valuify")
def _(v):
    base(v)
    a, b = v.obj("a"), v.obj("b"); log = []
    how = v.choose(3)
    res = [(a, b), a, ListObj(CSeq((a, b)))][how]
    if how == 1: v.assume(md.typeof(a.t) != toU(tuple))
    g = v.call(FU + "valuify", rec(v, log, res))
    r = v.total("call", lambda: v.call(g, b, k=1))
    v.oblige("once", z3.BoolVal(len(log) == 1)); v.same("arguments", log[0][0], (b,))
    if how == 0: v.oblige("tuple becomes Values", z3.BoolVal(isinstance(r, InstObj) and r.cls is v.get(FU + "Values"))); v.same("values", v.p.getattr(r, "rets"), (a, b))
    else: v.oblige("anything else as it is", z3.BoolVal(r is res))

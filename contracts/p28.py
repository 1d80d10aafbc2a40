"""P28: nondeterministic evaluation returns every solution once, in order; the list monad underneath."""
from spec import *
from lib import *
A = "unpythonic.amb:"
TRUSTED = ["eval of a text: the text is parsed and run by the same rules as the module's own source", "arity_includes answers as P20 states"]
ASSUMPTIONS = ["the list monad is proved for lists of any length; forall for blocks of the enumerated shapes (up to four lines, up to two choices of up to two alternatives each, any values, any outcome of every guard)",
               "the alternatives are not unpythonic's nil"]


def base(v):
    v.p.summaries["unpythonic.arity:arity_includes"] = lambda p, a, kw: True


def notnil(v, *ts):
    nil = toU(v.get("unpythonic.llist:nil"))
    for t in ts: v.assume(t != nil)


def ml(v, s):
    return v.total("construct", lambda: md.call_symargs(v.p, v.get(A + "MonadicList"), s, {}))


@contract(A + "MonadicList", variants=["construct", "from_iterable", "copy", "fmap", "add", "read"])
def _(v, how):
    s = v.source("s", "tuple"); notnil(v, toU(s.at(0)))
    M = v.get(A + "MonadicList")
    f = z3.Function("f", U, U)
    cnt = HObj(k=0)
    if how == "from_iterable":
        w = v.source("w", ["list", "iterator"][v.choose(2)]); notnil(v, toU(w.at(0)))
        r = v.total("call", lambda: v.method(M, "from_iterable", w.value)); spec = w.seq
    else:
        m = ml(v, s.seq); spec = s.seq
        if how == "copy":
            r = v.total("call", lambda: v.method(m, "copy")); v.oblige("a new list", z3.BoolVal(r is not m))
        elif how == "fmap":
            notnil(v, f(toU(s.at(0))))
            def host(p, a, kw):
                k = iz(cnt.get("k")); v.c.index(k)
                v.oblige("applied to each item, in order", z3.And(k < s.n, toU(a[0]) == toU(s.at(k)), z3.BoolVal(len(a) == 1 and not kw)))
                cnt.set("k", mki(k + 1)); return SU(f(toU(a[0])))
            v.hint(lambda i: SU(f(toU(s.at(i)))))
            r = v.total("call", lambda: v.method(m, "fmap", Fn(host, "f"))); spec = SSeq(s.n, lambda i: SU(f(toU(s.at(i)))))
            v.oblige("applied exactly once to each", iz(cnt.get("k")) == s.n)
        elif how == "add":
            t = v.source("t", "tuple"); notnil(v, toU(t.at(0)))
            m2 = ml(v, t.seq)
            r = v.total("call", lambda: v.method(m, "__add__", m2))
            spec = SSeq(s.n + t.n, lambda i: SU(z3.If(i < s.n, toU(s.at(i)), toU(t.at(i - s.n)))))
        else: r = m
    v.oblige("a monadic list", bz(md.py_isinstance(v.p, r, M)))
    way = v.choose(4)
    if way == 0: v.stream("iterating it", r, spec)
    elif way == 1: v.oblige("its length", iz(md.py_len(v.p, r)) == iz(slen(spec)))
    elif way == 2:
        i = v.int("i"); v.assume(z3.And(i.t >= 0, i.t < iz(slen(spec)))); v.c.index(i.t)
        v.same("an item", v.total("an item", lambda: v.p.getitem(r, i)), sat(spec, i.t))
    elif how in ("fmap", "add", "copy"): v.stream("the original is unchanged", m, s.seq)


def concat(srcs):
    def at(i):
        r, base = None, z3.IntVal(0)
        parts = []
        for s in srcs: parts.append((base, s)); base = base + s.n
        r = toU(parts[-1][1].at(i - parts[-1][0]))
        for b, s in reversed(parts[:-1]): r = z3.If(i < b + s.n, toU(s.at(i - b)), r)
        return SU(r)
    return SSeq(z3.simplify(sum((s.n for s in srcs), z3.IntVal(0))), at)


@contract(A + "MonadicList.join", variants=[(h, q) for h in ("join", ">>", "then") for q in range(4)])
def _(v, var):
    """any number of items in each of up to three inner lists"""
    how, q = var
    M = v.get(A + "MonadicList")
    srcs = [v.source(f"s{k}", "tuple") for k in range(q)] if how != "then" else [v.source("t", "tuple")] * q
    for s in srcs: notnil(v, toU(s.at(0)))
    spec = concat(srcs) if srcs else CSeq(())
    b = z3.IntVal(0)
    for s in srcs: b = z3.simplify(b + s.n); v.bound(b)
    if srcs: v.hint(spec.f)
    subs = [ml(v, s.seq) for s in srcs]
    xs = [v.obj(f"x{k}") for k in range(q)]; notnil(v, *[x.t for x in xs])
    if how == "join": r = v.total("call", lambda: v.method(v.call(M, *subs), "join"))
    elif how == ">>":
        got = []
        r = v.total("call", lambda: v.method(v.call(M, *xs), "__rshift__", Fn(lambda p, a, kw: (got.append(a[0]), subs[len(got) - 1])[1], "f")))
        v.oblige("called once for each item", z3.BoolVal(len(got) == q))
        for a, x in zip(got, xs): v.same("the function gets each item, in order", a, x)
    else:
        r = v.total("call", lambda: v.method(v.call(M, *xs), "then", subs[0] if q else v.call(M, v.obj("y"))))
    v.stream("the items of the inner lists, in order", r, spec)


@contract(A + "MonadicList.join", name=A + "MonadicList.join, then (not nested)")
def _(v):
    M = v.get(A + "MonadicList")
    x = v.obj("x"); notnil(v, x.t)
    inner = v.call(M, v.obj("a"))
    m = [lambda: v.call(M, x), lambda: v.call(M, inner, x), lambda: v.call(M, x, inner)][v.choose(3)]()
    v.must_raise("join", TypeError, lambda: v.method(m, "join"))
    v.must_raise("then", TypeError, lambda: v.method(m, "then", x))
    v.must_raise("add", TypeError, lambda: v.method(m, "__add__", x))


@contract(A + "MonadicList.guard", name=A + "guard, insist, deny, lift, the empty list")
def _(v):
    M = v.get(A + "MonadicList")
    x, a = v.obj("x"), v.obj("a"); notnil(v, a.t)
    t = v.truthy(x)
    how = v.choose(5)
    if how < 3:
        r = v.total("call", lambda: [lambda: v.method(M, "guard", x), lambda: v.call(A + "insist", x), lambda: v.call(A + "deny", x)][how]())
        want = t if how < 2 else z3.Not(t)
        v.oblige("passes exactly when it must", iz(md.py_len(v.p, r)) == z3.If(want, z3.IntVal(1), z3.IntVal(0)))
        k = HObj(k=0)
        v.same("then runs the rest or nothing", v.items(v.method(r, "then", v.call(M, a))), v.items(v.call(M, a)) if v.case(want) else CSeq(()))
    elif how == 3:
        f = z3.Function("f", U, U); notnil(v, f(x.t))
        r = v.total("call", lambda: v.call(v.method(M, "lift", Fn(lambda p, b, kw: SU(f(toU(b[0]))), "f")), x))
        v.same("lift", v.items(r), CSeq((SU(f(x.t)),)))
    else:
        v.same("nil makes the empty list", v.items(v.call(M, v.get("unpythonic.llist:nil"))), CSeq(()))
        v.same("no argument makes the empty list", v.items(v.call(M)), CSeq(()))
        v.same("one argument is one item", v.items(v.call(M, a)), CSeq((a,)))


@contract(A + "MonadicList", name=A + "MonadicList (monad laws)")
def _(v):
    M = v.get(A + "MonadicList")
    s, t = v.source("s", "tuple"), v.source("t", "tuple"); a = v.obj("a"); notnil(v, a.t, toU(s.at(0)), toU(t.at(0)))
    if v.choose(2):
        m = ml(v, s.seq); got = []
        r = v.total("left identity", lambda: v.method(v.call(M, a), "__rshift__", Fn(lambda p, b, kw: (got.append(b[0]), m)[1], "f")))
        v.oblige("called once", z3.BoolVal(len(got) == 1)); v.same("with the value", got[0], a)
        v.stream("left identity", r, s.seq)
    else:
        m = ml(v, s.seq)
        r = v.total("right identity", lambda: v.method(v.method(v.call(M, m), "join"), "copy"))
        v.stream("right identity (join after unit)", r, s.seq)


@contract(A + "monadify", variants=["iterable", "monadic", "other", "no unpack"])
def _(v, how):
    M = v.get(A + "MonadicList")
    s = v.source("s", "tuple"); notnil(v, toU(s.at(0)))
    if how == "monadic":
        m = ml(v, s.seq); v.oblige("unchanged", z3.BoolVal(v.total("call", lambda: v.call(A + "monadify", m, bool(v.choose(2)))) is m))
    elif how == "iterable":
        w = v.source("w", ["list", "iterator", "tuple"][v.choose(3)]); notnil(v, toU(w.at(0)))
        v.stream("items", v.total("call", lambda: v.call(A + "monadify", w.value)), w.seq)
    else:
        x = v.int("x") if how == "other" else s.value
        r = v.total("call", lambda: v.call(A + "monadify", x, True) if how == "other" else v.call(A + "monadify", x, False))
        v.same("one item", v.items(r), CSeq((x,)))


NAMES = "abc"


def snap(v, e):
    out = {}
    for n in NAMES:
        k, x = v.attempt(lambda: v.p.getattr(e, n))
        if k == "ok": out[n] = x
    return out


# line kinds: ("choose", name, n) constant alternatives; ("dep", name, n) alternatives made by calling a function of the environment;
# ("guard",) any truth value; ("deny",); ("plain", n) a line that contributes n alternatives without binding; ("value",) a constant non-iterable
SHAPES = [
 (), (("choose", "a", 2),), (("choose", "a", 0),), (("guard",),), (("choose", "a", 1), ("guard",)),
 (("choose", "a", 2), ("choose", "b", 2)), (("choose", "a", 2), ("guard",)), (("choose", "a", 2), ("deny",)), (("choose", "a", 2), ("dep", "b", 2)),
 (("dep", "a", 2), ("choose", "a", 2)), (("choose", "a", 2), ("dep", "a", 1), ("dep", "b", 1)), (("guard",), ("choose", "a", 2)), (("choose", "a", 2), ("plain", 2)),
 (("choose", "a", 2), ("plain", 0)), (("choose", "a", 2), ("choose", "b", 1), ("guard",)), (("choose", "b", 2), ("guard",), ("dep", "a", 2)),
 (("choose", "a", 1), ("dep", "b", 2), ("dep", "a", 1)), (("choose", "a", 2), ("guard",), ("deny",)), (("value", "a"),), (("value", "a"), ("choose", "b", 2)),
 (("choose", "c", 2), ("dep", "b", 1), ("dep", "a", 1)),
]


@contract(A + "forall", variants=[(s, last) for s in SHAPES for last in ("body", "constant") if last == "body" or len(s) == 1])
def _(v, var):
    shape, last = var
    base(v)
    p = v.p
    log, want, wantlog = [], [], []
    n = [0]
    def fresh(tag):
        n[0] += 1; x = v.obj(f"{tag}{n[0]}"); notnil(v, x.t); return x
    table = {}       # (line, visit number) -> what it gives
    visits = {}
    def line(j, give):
        def host(p_, a, kw):
            e = a[0]; k = visits[j] = visits.get(j, -1) + 1
            log.append((j, snap(v, e)))
            return give(k)
        return Fn(host, f"line{j}")
    gt = {}
    def guard(j, k):
        if (j, k) not in gt: gt[j, k] = z3.Bool(f"guard_{j}_{k}")
        return gt[j, k]
    def alts(j, k, m):
        return tuple(table.setdefault((j, k, i), fresh(f"alt{j}_{k}_")) for i in range(m))
    lines = []
    for j, s in enumerate(shape):
        if s[0] == "choose": lines.append(v.call(A + "choice", **{s[1]: [lambda x: x, lambda x: ListObj(CSeq(x))][j % 2](alts(j, 0, s[2]))}))
        elif s[0] == "dep": lines.append(v.call(A + "choice", **{s[1]: line(j, lambda k, j=j, m=s[2]: alts(j, k, m))}))
        elif s[0] == "guard": lines.append(line(j, lambda k, j=j: v.call(A + "insist", SBool(guard(j, k)))))
        elif s[0] == "deny": lines.append(line(j, lambda k, j=j: v.call(A + "deny", SBool(guard(j, k)))))
        elif s[0] == "plain": lines.append(line(j, lambda k, j=j, m=s[1]: tuple(range(m))))
        else: lines.append(v.call(A + "choice", **{s[1]: table.setdefault("val", v.int("val"))}))
    J = len(shape)
    const = fresh("const")
    if last == "constant": v.assume(z3.Not(z3.Function("py_callable", U, B)(const.t)))
    lines.append(line(J, lambda k: alts(J, k, 1)[0]) if last == "body" else const)
    got = v.total("forall", lambda: v.call(A + "forall", *lines))
    seen = {}
    def run(j, env):
        def visit():
            k = seen[j] = seen.get(j, -1) + 1
            wantlog.append((j, dict(env))); return k
        if j == J:
            want.append(alts(J, visit(), 1)[0] if last == "body" else const); return
        s = shape[j]
        if s[0] in ("choose", "dep"):
            k = visit() if s[0] == "dep" else 0
            for x in alts(j, k, s[2]): run(j + 1, {**env, s[1]: x})
        elif s[0] == "value": run(j + 1, {**env, s[1]: table["val"]})
        elif s[0] == "plain":
            visit()
            for _ in range(s[1]): run(j + 1, env)
        else:
            k = visit(); g = guard(j, k)
            if v.case(g if s[0] == "guard" else z3.Not(g)): run(j + 1, env)
    run(0, {})
    v.oblige("the lines run, in order", z3.BoolVal([j for j, _ in log] == [j for j, _ in wantlog]))
    for i, ((j, e), (_, w)) in enumerate(zip(log, wantlog)):
        v.oblige("names visible to a line", z3.BoolVal(set(e) == set(w)))
        for k in w:
            if k in e: v.same("value of a name in a line", e[k], w[k])
    v.oblige("a tuple", z3.BoolVal(isinstance(got, (tuple, STuple))))
    v.same("every solution once, in order", v.items(got), CSeq(tuple(want)))


@contract(A + "choice", name=A + "choice, forall (refusals)")
def _(v):
    base(v)
    x, y = v.obj("x"), v.obj("y")
    how = v.choose(4)
    if how == 0: v.must_raise("no name", ValueError, lambda: v.call(A + "choice"))
    elif how == 1: v.must_raise("two names", ValueError, lambda: v.call(A + "choice", a=x, b=y))
    elif how == 2:
        v.p.summaries["unpythonic.arity:arity_includes"] = lambda p, a, kw: False
        ran = []
        v.must_raise("a line that cannot take the environment", TypeError, lambda: v.call(A + "forall", Fn(lambda p, a, kw: ran.append(1), "f")))
        v.oblige("nothing run", z3.BoolVal(not ran))
    else:
        def exc(p, a, kw): raise PyRaise(e)
        e = mkexc(TypeError)
        k, r = v.attempt(lambda: v.call(A + "forall", v.call(A + "choice", a=(x, y)), Fn(exc, "f")))
        v.oblige("an exception in a line reaches the caller", z3.BoolVal(k == "raise"))
        if k == "raise": v.same("the same exception", r, e)

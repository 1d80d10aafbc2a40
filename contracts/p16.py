"""P16: tail calls and functional loops equal plain recursion, in constant stack."""
from spec import *
from lib import *
T, L = "unpythonic.tco:", "unpythonic.fploop:"
ASSUMPTIONS = ["the jump targets are pure functions of their arguments (uninterpreted), except where the contract says otherwise"]

U1 = lambda n: z3.Function(n, U, U)
B1 = lambda n: z3.Function(n, U, B)


class Rec:
    """a recursive function given by uninterpreted step functions: val(s) = val(nxt(s)) if cont(s) else res(s)"""
    def __init__(self, v, n=1):
        self.v, self.n = v, n
        self.cont, self.res = B1("cont"), U1("res")
        self.val = U1("val")
        self.depths = []
    def unfold(self, s):
        nx = U1("nxt")(s)
        self.v.c.assume(self.val(s) == z3.If(self.cont(s), self.val(nx), self.res(s)))
        return nx


def depth_check(v, seen):
    """every call of the target happens at the same depth of the interpreted call stack"""
    seen.append(v.c.depth)
    v.oblige("constant stack depth", z3.BoolVal(seen[0] == seen[-1]))


@contract(T + "trampolined", name=T + "trampolined (self tail call)", variants=["plain", "kw", "extra"])
def _(v, how):
    r = Rec(v)
    p = v.p
    s0 = v.obj("s0"); k = v.obj("k")
    v.c.keeps.append((r.val, r.val(s0.t)))
    seen = []
    me = []
    def body(p_, args, kw):
        depth_check(v, seen)
        if how == "kw":
            s = kw["s"]
            v.oblige("keyword arguments only", z3.BoolVal(not args and set(kw) == {"s", "k"}))
            v.same("unchanged keyword argument", kw["k"], k)
        else:
            s = args[0]
            v.oblige("positional arguments", z3.BoolVal(len(args) == (2 if how == "extra" else 1) and not kw))
            if how == "extra": v.same("second argument", args[1], k)
        nx = r.unfold(toU(s))
        if v.case(r.cont(toU(s))):
            if how == "kw": return v.call(T + "jump", me[0], k=k, s=SU(nx))
            return v.call(T + "jump", me[0], SU(nx), *([k] if how == "extra" else []))
        return SU(r.res(toU(s)))
    f = v.total("trampolined", lambda: v.call(T + "trampolined", Fn(body, "body")))
    me.append(f)
    x = v.total("call", lambda: v.call(f, k=k, s=s0) if how == "kw" else v.call(f, s0, *([k] if how == "extra" else [])))
    v.same("value of plain recursion", x, SU(r.val(s0.t)))


@contract(T + "trampolined", name=T + "trampolined (mutual tail calls)", variants=["raw_target", "trampolined_target"])
def _(v, how):
    """two functions that jump to each other; either may be given to jump as decorated or as the plain function"""
    p = v.p
    even, odd = U1("even"), U1("odd")
    ce, co, re, ro, nx = B1("ce"), B1("co"), U1("re"), U1("ro"), U1("nx")
    s0 = v.obj("s0"); v.assume(s0.t != toU(md.inspect_global(v.p, "_empty")))
    v.c.keeps.append((even, even(s0.t))); v.c.keeps.append((odd, even(s0.t)))
    seen, fs = [], {}
    def mk(name, val, cont, res, other):
        def body(p_, args, kw):
            depth_check(v, seen)
            v.oblige("one argument", z3.BoolVal(len(args) == 1 and not kw))
            s = toU(args[0])
            oval = odd if name == "even" else even
            v.assume(val(s) == z3.If(cont(s), oval(nx(s)), res(s)))
            if v.case(cont(s)): return v.call(T + "jump", fs[other], SU(nx(s)))
            return SU(res(s))
        return Fn(body, name)
    fe, fo = mk("even", even, ce, re, "odd"), mk("odd", odd, co, ro, "even")
    te, to = v.call(T + "trampolined", fe), v.call(T + "trampolined", fo)
    fs["even"] = te; fs["odd"] = to if how == "trampolined_target" else fo
    x = v.total("call", lambda: v.call(te, s0))
    v.same("value of plain mutual recursion", x, SU(even(s0.t)))


@contract(T + "trampolined", name=T + "trampolined (results)", variants=["value", "none", "exception", "nested", "noncallable", "notcallable_target"])
def _(v, how):
    p = v.p
    a = v.obj("a")
    if how == "noncallable":
        # a finished value (for example of @looped below) passes through
        v.same("a value is passed through", v.total("call", lambda: v.call(T + "trampolined", 42)), 42)
        return
    if how == "notcallable_target":
        f = v.call(T + "trampolined", Fn(lambda p_, a_, k_: v.call(T + "jump", 42, 1), "b"))
        v.must_raise("jump into a value", RuntimeError, lambda: v.call(f, a))
        return
    exc = mkexc(ValueError)
    if how == "nested":
        g = v.call(T + "trampolined", Fn(lambda p_, args, k_: v.call(T + "jump", Fn(lambda p2, a2, k2: SU(U1("g")(toU(a2[0]))), "h"), args[0]), "g"))
        f = v.call(T + "trampolined", Fn(lambda p_, args, k_: SU(U1("f")(toU(v.call(g, args[0])))), "f"))
        v.same("ordinary call of a trampolined function inside", v.total("call", lambda: v.call(f, a)), SU(U1("f")(U1("g")(a.t))))
        return
    def body(p_, args, kw):
        if how == "exception": raise PyRaise(exc)
        return None if how == "none" else args[0]
    f = v.call(T + "trampolined", Fn(body, "b"))
    if how == "exception":
        k, x = v.attempt(lambda: v.call(f, a))
        v.oblige("exceptions pass", z3.BoolVal(k == "raise" and x is exc))
    else: v.same("the value", v.total("call", lambda: v.call(f, a)), None if how == "none" else a)


@contract(T + "jump", name=T + "jump (order of arguments)")
def _(v):
    xs = [v.obj(f"x{j}") for j in range(3)]
    got = []
    def target(p_, args, kw):
        got.append((tuple(args), dict(kw))); return 0
    f = v.call(T + "trampolined", Fn(lambda p_, a, k: v.call(T + "jump", Fn(target, "t"), xs[0], xs[1], b=xs[2], a=xs[0]), "f"))
    v.total("call", lambda: v.call(f))
    v.oblige("called once", z3.BoolVal(len(got) == 1))
    v.same("positional", got[0][0], (xs[0], xs[1]))
    v.oblige("keywords", z3.And(z3.BoolVal(set(got[0][1]) == {"a", "b"}), same(got[0][1]["b"], xs[2]), same(got[0][1]["a"], xs[0])))


@contract(T + "jump", name=T + "jump (methods)")
def _(v):
    """jumping to a trampolined method keeps the instance"""
    a = v.obj("a")
    got = []
    inst = v.inst("C")
    m2 = v.call(T + "trampolined", Fn(lambda p_, args, k: (got.append(args), args[1])[1], "m2"))
    inst.cls.cells["m2"] = m2
    m1 = v.call(T + "trampolined", Fn(lambda p_, args, k: v.call(T + "jump", v.p.getattr(args[0], "m2"), a), "m1"))
    inst.cls.cells["m1"] = m1
    r = v.total("call", lambda: v.call(v.p.getattr(inst, "m1")))
    v.same("value", r, a)
    v.oblige("the instance is passed", z3.BoolVal(len(got) == 1 and got[0][0] is inst))


# ---------------------------------------------------------------- functional loops
P3 = [("loop", 1, None), ("s", 1, (None,))]


def fn(f, name, params):
    o = Fn(f, name); o.params = params; return o


@contract(L + "looped", variants=["looped", "breakably_looped", "breakably_looped/brk"])
def _(v, how):
    r = Rec(v)
    p = v.p
    s0 = v.obj("s0"); v.assume(s0.t != toU(md.inspect_global(v.p, "_empty")))
    v.c.keeps.append((r.val, r.val(s0.t)))
    seen = []
    br = how != "looped"
    def body(p_, args, kw):
        depth_check(v, seen)
        loop = args[0]
        s = args[-1] if len(args) > (2 if br else 1) else s0     # the loop variable's default
        nx = r.unfold(toU(s))
        if v.case(r.cont(toU(s))): return p.call(loop, [SU(nx)])
        if how.endswith("brk"):
            p.call(args[1], [SU(r.res(toU(s)))])
            v.oblige("nothing runs after brk", False)
        return SU(r.res(toU(s)))
    params = [("loop", 1, None)] + ([("brk", 1, None)] if br else []) + [("s", 1, (s0,))]
    x = v.total("loop", lambda: v.call(L + how.split("/")[0], fn(body, "body", params)))
    v.same("value of plain recursion", x, SU(r.val(s0.t)))


@contract(L + "looped", name=L + "looped (arity of the body)", variants=["looped", "breakably_looped", "looped_over", "breakably_looped_over"])
def _(v, how):
    n = {"looped": 1, "breakably_looped": 2, "looped_over": 3, "breakably_looped_over": 5}[how]
    deco = v.get(L + how)
    if how.endswith("over"): deco = v.call(deco, ListObj(CSeq((1,))), 0)
    for k in range(0, 8):
        f = fn(lambda p_, a, kw: 7, "body", [(f"p{j}", 1, None) for j in range(k)])
        if k == n: v.same("right arity", v.total("run", lambda: v.p.call(deco, [f])), 7)
        else: v.must_raise(f"arity {k}", ValueError, lambda: v.p.call(deco, [f]))


def over(v, how, kind, mode):
    """acc(i+1) = step(acc(i), x(i)); the loop ends with acc(n)"""
    p, c = v.p, v.c
    s = v.source("s", kind)
    acc0 = v.obj("acc0")
    A = z3.Function("A", I, U)
    step = z3.Function("step", U, U, U)
    v.assume(A(0) == acc0.t)
    c.recdef(lambda i: z3.Implies(i >= 0, A(i + 1) == step(A(i), toU(s.at(i)))))
    v.hint(lambda i: SU(A(i)))
    g = HObj(k=0)
    stop = z3.Int("stop_at")
    c.preds.append(lambda a: z3.Or(stop < 0, stop >= a))
    seen = []
    brk = how == "breakably_looped_over"
    def body(p_, args, kw):
        depth_check(v, seen)
        k = iz(g.get("k")); c.index(k)
        loop, x, acc = args[:3]
        v.oblige("an item is left", k < s.n)
        v.same("each item once, in order", x, s.at(k))
        v.same("accumulator of the previous step", acc, SU(A(k)))
        v.oblige("arguments", z3.BoolVal(len(args) == (5 if brk else 3) and not kw))
        g.set("k", mki(k + 1))
        new = SU(step(toU(acc), toU(x)))
        if mode == "end" and v.case(k == stop): return new
        if mode == "brk" and v.case(k == stop): p.call(args[4], [new])
        if mode == "keep": return p.call(loop, [])
        if mode == "cnt": return p.call(args[3], [])
        return p.call(loop, [new])
    params = [(f"p{j}", 1, None) for j in range(5 if brk else 3)]
    run = v.total(how, lambda: v.call(L + how, s.value, acc0))
    x = v.total("run", lambda: p.call(run, [fn(body, "body", params)]))
    k = iz(g.get("k")); c.index(k)
    if mode in ("end", "brk"):
        ended = z3.And(0 <= stop, stop < s.n)
        v.oblige("ends early exactly there", z3.Implies(ended, k == stop + 1))
        v.oblige("or runs through all items", z3.Implies(z3.Not(ended), k == s.n))
    else: v.oblige("all items delivered", k == s.n)
    v.same("the last accumulator", x, SU(A(k)) if mode not in ("keep", "cnt") else acc0)


def over_keep(v, how, kind, mode):
    """loop() / cnt() without a new accumulator keeps the old one"""
    p, c = v.p, v.c
    s = v.source("s", kind)
    acc0 = v.obj("acc0")
    g = HObj(k=0)
    brk = how == "breakably_looped_over"
    def body(p_, args, kw):
        k = iz(g.get("k")); c.index(k)
        v.same("each item once, in order", args[1], s.at(k))
        v.same("accumulator kept", args[2], acc0)
        g.set("k", mki(k + 1))
        return p.call(args[3] if mode == "cnt" else args[0], [])
    params = [(f"p{j}", 1, None) for j in range(5 if brk else 3)]
    run = v.total(how, lambda: v.call(L + how, s.value, acc0))
    x = v.total("run", lambda: p.call(run, [fn(body, "body", params)]))
    v.oblige("all items delivered", iz(g.get("k")) == s.n)
    v.same("the last accumulator", x, acc0)


@contract(L + "looped_over", variants=[(h, k, m) for h in ("looped_over", "breakably_looped_over") for k in ("iterator", "list") for m in ("run", "end", "brk", "keep", "cnt") if h[0] == "b" or m not in ("brk", "cnt")])
def _(v, var):
    how, kind, mode = var
    (over_keep if mode in ("keep", "cnt") else over)(v, how, kind, mode)

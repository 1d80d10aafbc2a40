"""P10: memoized functions and promises are evaluated at most once per arguments."""
from spec import *
from lib import *
L, FN = "unpythonic.lazyutil:", "unpythonic.fun:"
TRUSTED = ["inspect.signature, Signature.bind and BoundArguments.apply_defaults: CPython's own source, interpreted", "dict and RLock as documented; one dict access is atomic",
           "other threads call the same memoized function at any time when no lock that existed before the call is held"]
ASSUMPTIONS = ["arguments are opaque hashable values whose equality is identity of the opaque term (equal arguments are one term), without promises inside", "the value is not unpythonic's private 'uninitialized' marker"]


def anyexc(v, name, base):
    """an exception of any type derived from base"""
    e = v.obj(name)
    for t in ((BaseException, Exception) if base is Exception else (BaseException,)): v.assume(md.issub(md.typeof(e.t), toU(t)))
    return e


def lazyinit(v): v.call(L + "_init_module")


def same_obj(a, b): return a is b or isinstance(a, SU) and isinstance(b, SU) and a.t.eq(b.t)


# ------------------------------------------------------------------ promises
@contract(L + "Lazy", variants=["value", "exception"])
def _(v, how):
    runs = HObj(n=0)
    x = v.obj("x"); e = anyexc(v, "e", Exception)
    v.assume(x.t != toU(v.get(L + "_uninitialized"))); v.assume(e.t != toU(v.get(L + "_uninitialized")))
    def thunk(p, a, kw):
        v.oblige("thunk gets no arguments", z3.BoolVal(not a and not kw))
        runs.set("n", runs.get("n") + 1)
        if how == "exception": raise PyRaise(e)
        return x
    pr = v.total("construct", lambda: v.call(L + "Lazy", Fn(thunk, "thunk", ), **({"sourcecode": v.obj("src")} if v.choose(2) else {})))
    v.oblige("not run at construction", z3.BoolVal(runs.get("n") == 0))
    def out(tag, th):
        k, r = v.attempt(th)
        if how == "value": v.oblige(tag + "/no exception", z3.BoolVal(k == "ok")); v.same(tag + "/the identical value", r, x)
        else: v.oblige(tag + "/the identical exception", z3.And(z3.BoolVal(k == "raise"), same(r, e)) if k == "raise" else False)
        v.oblige(tag + "/run exactly once", z3.BoolVal(runs.get("n") == 1))
    ways = [lambda: v.method(pr, "force"), lambda: v.call(L + "force1", pr)]
    out("first", ways[v.choose(2)])
    snap = {k: pr.cells[k] for k in pr.cells}
    out("again", ways[v.choose(2)])
    v.aux("state unchanged by forcing again", z3.BoolVal(set(snap) == set(pr.cells) and all(same_obj(snap[k], pr.cells[k]) for k in snap)))


@contract(L + "Lazy", name=L + "Lazy (not callable)")
def _(v):
    v.must_raise("refused", TypeError, lambda: v.call(L + "Lazy", 42))


@contract(L + "force1", name=L + "force1 (not a promise)")
def _(v):
    x = v.obj("x")
    v.same("given back", v.total("force1", lambda: v.call(L + "force1", x)), x)
    for y in (None, 0, "s", (1, 2)): v.same("given back", v.call(L + "force1", y), y)


def promise(v, name, log):
    x = v.obj(name); v.assume(x.t != toU(v.get(L + "_uninitialized")))
    def th(p, a, kw): log.append(name); return x
    return v.call(L + "Lazy", Fn(th, name)), x


@contract(L + "force", variants=["scalar", "list", "tuple", "dict", "nested", "empty"])
def _(v, how):
    lazyinit(v)
    log = []
    (p1, x1), (p2, x2), y = promise(v, "p1", log), promise(v, "p2", log), v.obj("y")
    if how == "scalar":
        v.same("forced", v.total("force", lambda: v.call(L + "force", p1)), x1); v.oblige("once", z3.BoolVal(log == ["p1"]))
        v.same("a non-promise is given back", v.total("force", lambda: v.call(L + "force", 42)), 42)
        return
    if how == "list":
        r = v.total("force", lambda: v.call(L + "force", ListObj(CSeq([p1, 5, p2, p1])))); v.same("items", v.items(r), CSeq([x1, 5, x2, x1]))
    elif how == "tuple":
        r = v.total("force", lambda: v.call(L + "force", (p1, None, p2))); v.same("items", r, (x1, None, x2))
    elif how == "dict":
        d = DictObj(); d.raw_set("a", p1); d.raw_set("b", 7); d.raw_set("c", p2)
        r = v.total("force", lambda: v.call(L + "force", d)); v.same("items", CSeq(dict_entries(v.p, r)), CSeq([("a", x1), ("b", 7), ("c", x2)]))
    elif how == "nested":
        r = v.total("force", lambda: v.call(L + "force", (ListObj(CSeq([p1, (p2,)])), 3)))
        v.oblige("structure", z3.BoolVal(isinstance(r, tuple) and len(r) == 2 and r[1] == 3 and isinstance(r[0], ListObj)))
        v.same("items", v.items(r[0]), CSeq([x1, (x2,)]))
    else:
        v.same("empty tuple", v.total("force", lambda: v.call(L + "force", ())), ()); return
    v.oblige("each promise once", z3.BoolVal(sorted(log) == ["p1", "p2"]))


@contract(L + "maybe_force_args", variants=["plain", "lazy"])
def _(v, how):
    lazyinit(v)
    log, seen = [], []
    (p1, x1), (p2, x2), y = promise(v, "p1", log), promise(v, "p2", log), 5
    def f(p, a, kw): seen.append((a, kw)); return 9
    class LF(Fn): pass
    g = Fn(f, "g")
    if how == "lazy": g.lazy = True; v.p.summaries[L + "islazy"] = lambda p, a, kw: True
    r = v.total("call", lambda: v.call(L + "maybe_force_args", g, p1, y, k=p2))
    v.same("its value", r, 9)
    v.oblige("called once", z3.BoolVal(len(seen) == 1))
    a, kw = seen[0]
    v.oblige("same number of arguments", z3.BoolVal(len(a) == 2 and set(kw) == {"k"}))
    if how == "lazy": v.oblige("promises passed through", z3.BoolVal(a[0] is p1 and kw["k"] is p2 and not log))
    else: v.same("forced", a[0], x1); v.same("forced", kw["k"], x2); v.oblige("once each", z3.BoolVal(sorted(log) == ["p1", "p2"]))
    v.same("others unchanged", a[1], 5)


# ------------------------------------------------------------------ memoize
NONE = None
SIGS = {   # name: (parameters, [(call style of binding (a, b))])
    "a_b": [("a", 1, None), ("b", 1, None)],
    "a_bdef": [("a", 1, None), ("b", 1, ("dflt",))],
    "kwonly": [("a", 1, None), ("b", 3, ("dflt",))],
    "varargs": [("a", 1, None), ("rest", 2, None)],
    "varkw": [("a", 1, None), ("kws", 4, None)],
    "posonly": [("a", 0, None), ("b", 1, ("dflt",))],
    "none": [],
}
# ways of passing the binding a=x, b=y (b None: use the default)
STYLES = {
    "a_b": [lambda x, y: ([x, y], {}), lambda x, y: ([x], {"b": y}), lambda x, y: ([], {"a": x, "b": y}), lambda x, y: ([], {"b": y, "a": x})],
    "a_bdef": [lambda x, y: ([x, y], {}), lambda x, y: ([x], {"b": y}), lambda x, y: ([], {"b": y, "a": x})],
    "kwonly": [lambda x, y: ([x], {"b": y}), lambda x, y: ([], {"b": y, "a": x})],
    "varargs": [lambda x, y: ([x, y], {})],
    "varkw": [lambda x, y: ([x], {"p": y, "q": y}), lambda x, y: ([x], {"q": y, "p": y}), lambda x, y: ([], {"q": y, "a": x, "p": y})],
    "posonly": [lambda x, y: ([x, y], {}), lambda x, y: ([x], {"b": y})],
    "none": [lambda x, y: ([], {})],
}


def memofn(v, sig, runs, fails=None):
    d = v.obj("default_b"); v.assume(d.t != toU(md.inspect_global(v.p, "_empty")))
    def body(p, a, kw):
        runs.append((a, kw))
        if v.c.on_body is not None: v.c.on_body(p)
        k = len(runs)
        # a fresh result for every run, so that a second run shows
        if fails is not None and fails(k): e = anyexc(v, f"e{k}", BaseException); outs.append(("raise", e)); raise PyRaise(e)
        r = SU(v.c.u("result")); outs.append(("ok", r)); return r
    outs = []
    v.p.summaries[L + "force"] = lambda p, a, kw: a[0]       # no promise among the arguments (with promises: maybe_force_args above)
    f = Fn(body, "f")
    f.params = [(n, k, None if dd is None else (d,)) for n, k, dd in SIGS[sig]]
    v.c.on_body = None
    return f, d, outs


def differ(v, out, out2):
    return out[0] != out2[0] or not same_obj(out[1], out2[1])


@contract(FN + "memoize", variants=[(s, m) for s in SIGS for m in ("ok", "raise")])
def _(v, var):
    """a call after a call: one run iff the bindings are the same, in any style of passing"""
    sig, mode = var
    lazyinit(v)
    runs = []
    f, d, outs = memofn(v, sig, runs, (lambda k: True) if mode == "raise" else None)
    m = v.total("memoize", lambda: v.call(FN + "memoize", f))
    v.oblige("not run by decorating", z3.BoolVal(not runs))
    x, y, x2, y2 = v.obj("x"), v.obj("y"), v.obj("x2"), v.obj("y2")
    S = STYLES[sig]
    a1, k1 = S[v.choose(len(S))](x, y)
    o1 = v.attempt(lambda: v.call(m, *a1, **k1))
    v.oblige("first call runs the body once", z3.BoolVal(len(runs) == 1))
    v.oblige("its outcome", z3.BoolVal(not differ(v, o1, outs[0])))
    v.same("arguments as given", CSeq(runs[0][0]), CSeq(a1)); v.oblige("keyword arguments as given", z3.BoolVal(set(runs[0][1]) == set(k1)))
    for k in k1:
        if k in runs[0][1]: v.same("keyword arguments as given", runs[0][1][k], k1[k])
    a2, k2 = S[v.choose(len(S))](x2, y2)
    same_b = z3.And(x.t == x2.t, y.t == y2.t) if sig != "none" else z3.BoolVal(True)
    o2 = v.attempt(lambda: v.call(m, *a2, **k2))
    if v.case(same_b):
        v.oblige("same binding: not run again", z3.BoolVal(len(runs) == 1))
        v.oblige("same binding: identical outcome", z3.BoolVal(not differ(v, o1, o2)))
    else:
        v.oblige("other binding: run once", z3.BoolVal(len(runs) == 2))
        v.oblige("other binding: its own outcome", z3.BoolVal(not differ(v, o2, outs[-1])))
    # and back to the first
    n = len(runs)
    a3, k3 = S[v.choose(len(S))](x, y)
    o3 = v.attempt(lambda: v.call(m, *a3, **k3))
    v.oblige("first binding again: not run", z3.BoolVal(len(runs) == n)); v.oblige("first binding again: identical outcome", z3.BoolVal(not differ(v, o1, o3)))


@contract(FN + "memoize", name=FN + "memoize (default values)", variants=["a_bdef", "kwonly", "posonly"])
def _(v, sig):
    lazyinit(v)
    runs = []
    f, d, outs = memofn(v, sig, runs)
    m = v.call(FN + "memoize", f)
    x = v.obj("x")
    S = STYLES[sig]
    calls = [([x], {})] + [s(x, d) for s in S]
    i, j = v.choose(len(calls)), v.choose(len(calls))
    o1 = v.attempt(lambda: v.call(m, *calls[i][0], **calls[i][1])); o2 = v.attempt(lambda: v.call(m, *calls[j][0], **calls[j][1]))
    v.oblige("the default given explicitly or not is one binding", z3.BoolVal(len(runs) == 1 and not differ(v, o1, o2)))


@contract(FN + "memoize", name=FN + "memoize (any history)", variants=["a_b", "varkw", "none"])
def _(v, sig):
    """one call, from any content of the memo"""
    lazyinit(v)
    runs = []
    f, d, outs = memofn(v, sig, runs)
    m = v.call(FN + "memoize", f)
    memo = [o for o in v.c.objs.values() if isinstance(o, DictObj) and o.uid > 0 and not o.entries and o in closure_values(m)]
    if len(memo) != 1: raise Unsupported("cannot tell the memo")
    has, kind, val = z3.Function("memo_has", U, B), z3.Function("memo_ok", U, B), z3.Function("memo_val", U, U)
    OK, BAD = v.get(FN + "_success"), v.get(FN + "_fail")
    # the memo's representation, as the code itself writes it; the contract below is about this one
    for tag, res, exc in ((OK, v.obj("sample"), None), (BAD, None, mkexc(ValueError))):
        def probe(p, a, k):
            if exc is not None: raise PyRaise(exc)
            return res
        pf = Fn(probe, "probe"); pf.params = []
        pm = v.call(FN + "memoize", pf)
        v.attempt(lambda: v.call(pm))
        ds = [o for o in closure_values(pm) if isinstance(o, DictObj) and len(o.entries) == 1]
        if len(ds) != 1: raise Unsupported("cannot tell the memo")
        e = ds[0].entries[0][1]
        if not (isinstance(e, tuple) and len(e) == 2 and e[0] is tag and e[1] is (exc if exc is not None else res)): raise Unsupported("the memo is represented in another way")
    asked = []
    def mval(k): asked.append(k); return (OK if v.case(kind(k)) else BAD, SU(val(k)))
    memo[0].base = MapBase(lambda k: has(k), mval)
    x, y = v.obj("x"), v.obj("y")
    S = STYLES[sig]
    a1, k1 = S[v.choose(len(S))](x, y)
    o1 = v.attempt(lambda: v.call(m, *a1, **k1))
    if asked:
        v.oblige("present: not run", z3.BoolVal(not runs)); k = asked[0]
        v.oblige("present: the recorded outcome", z3.And(z3.BoolVal(o1[0] == "ok") == kind(k), toU(o1[1]) == val(k)))
    else:
        v.oblige("absent: run once", z3.BoolVal(len(runs) == 1 and not differ(v, o1, outs[0])))
        v.oblige("recorded", z3.BoolVal(len(memo[0].entries) == 1))


def closure_values(f):
    out = []
    e = f.env
    while e is not None:
        out += list(e.vars.cells.values()) if hasattr(e, "vars") and hasattr(e.vars, "cells") else list(getattr(e, "cells", {}).values())
        e = getattr(e, "parent", None)
    return [o for o in out if isinstance(o, HObj)]


@contract(FN + "memoize", name=FN + "memoize (other threads)", variants=["same", "other"])
def _(v, how):
    """another thread calls the memoized function with the same (other) arguments at any moment when it can"""
    lazyinit(v)
    runs = []
    f, d, outs = memofn(v, "a_b", runs)
    m = v.call(FN + "memoize", f)
    x, y, x2 = v.obj("x"), v.obj("y"), v.obj("x2"); v.assume(x.t != x2.t)
    for o in v.c.objs.values():
        if isinstance(o, DictObj) and o.uid > 0: o.shared = True
    born = v.c.serial
    locked = lambda: any(isinstance(o, LockObj) and o.uid <= born and o.get("held") for o in v.c.objs.values())
    other, busy = [], []
    def act(p):
        if v.c.init_stack or other or busy or locked() or not v.c.choose(2): return
        busy.append(1)
        other.append(v.attempt(lambda: v.call(m, x if how == "same" else x2, y)))
        busy.pop()
    def acquire(p, lock):
        if lock.get("held") == 1 and not busy:
            lock.set("held", 0); act(p); lock.set("held", 1)
    v.c.on_table = lambda p, dd, k, kind: act(p)
    v.c.x.on_acquire = acquire
    v.c.on_body = act
    o1 = v.attempt(lambda: v.call(m, x, y))
    v.c.on_table = v.c.x.on_acquire = v.c.on_body = None
    if how == "same":
        v.oblige("run once in all", z3.BoolVal(len(runs) == 1)); v.oblige("both get the identical outcome", z3.BoolVal(not other or not differ(v, o1, other[0])))
    else: v.oblige("one run per binding", z3.BoolVal(len(runs) == 1 + len(other)))
    o2 = v.attempt(lambda: v.call(m, x, y))
    v.oblige("afterwards the identical outcome, without a run", z3.BoolVal(not differ(v, o1, o2) and len(runs) == 1 + (len(other) if how == "other" else 0)))

"""P30: exception helpers."""
from spec import *
from lib import *
X = "unpythonic.excutil:"
ASSUMPTIONS = ["exception types are opaque with an arbitrary (uninterpreted) subclass relation, so the contracts hold for every class hierarchy"]
TRUSTED = ["contextlib.contextmanager as in its reference definition (pyvc/prelude.py)"]
BE = lambda: toU(BaseException)


def exc(v, name):
    """an arbitrary exception object"""
    e = v.obj(name)
    v.assume(md.issub(md.typeof(e.t), BE()))
    # __exit__ tests its exception-type argument against None
    v.assume(md.typeof(e.t) != toU(None))
    return e


def etype(v, name):
    t = v.obj(name)
    v.assume(z3.Not(z3.Function("isinstance_tuple", U, B)(t.t)))
    v.assume(md.issub(t.t, BE()))
    return t


def matches(e, spec):
    if isinstance(spec, tuple): return z3.Or([matches(e, s) for s in spec] + [z3.BoolVal(False)])
    return md.issub(md.typeof(e.t), spec.t)


def hfn(log, name, arity, res=None, raises=None):
    def f(p, args, kw):
        log.append((name, tuple(args)))
        if raises is not None: raise PyRaise(raises)
        return res
    o = Fn(f, name)
    o.params = [(f"a{j}", 1, None) for j in range(arity)] if arity is not None else None
    return o


SHAPES = [(), ("t",), ("t", "t"), ("tt",), ("0",), ("tt", "t"), ("t", "tt"), ("t", "t", "t")]


@contract(X + "tryf", variants=[(s, b, ar, el, fi) for s in SHAPES for b in ("ok", "raise") for ar in ((0, 1, None) if s in (("t",), ("tt",)) else (1,)) for el in (0, 1) for fi in (0, 1)])
def _(v, var):
    shape, body, ar, el, fi = var
    log = []
    e, r = exc(v, "e"), v.obj("r")
    specs, hs, results = [], [], []
    for j, s in enumerate(shape):
        n = {"t": 1, "tt": 2, "0": 0}[s]
        ts = tuple(etype(v, f"T{j}_{k}") for k in range(n))
        spec = ts[0] if s == "t" else ts
        res = v.obj(f"res{j}")
        specs.append(spec); results.append(res)
        hs.append((spec, hfn(log, f"h{j}", ar, res)))
    er = v.obj("else_result")
    kw = {}
    if el: kw["elsef"] = hfn(log, "else", 0, er)
    if fi: kw["finallyf"] = hfn(log, "finally", 0, v.obj("fin"))
    b = hfn(log, "body", 0, r, e if body == "raise" else None)
    k, x = v.attempt(lambda: v.call(X + "tryf", b, *hs, **kw))
    fin = [("finally", ())] if fi else []
    def logis(want):
        v.oblige("what ran, in order", z3.BoolVal([n for n, a in log] == [n for n, a in want]))
        for (n, a), (_, w) in zip(log, want): v.same(f"arguments of {n}", a, w)
    if body == "ok":
        v.oblige("no exception", z3.BoolVal(k == "ok"))
        v.same("value", x, er if el else r)
        logis([("body", ())] + ([("else", ())] if el else []) + fin)
        return
    for j, s in enumerate(specs):
        if v.case(matches(e, s)):
            v.oblige("handled", z3.BoolVal(k == "ok"))
            v.same("value of the first matching handler", x, results[j])
            logis([("body", ()), (f"h{j}", () if ar == 0 else (e,))] + fin)
            return
    v.oblige("not handled: propagates", z3.BoolVal(k == "raise"))
    v.same("the same exception", x, e)
    logis([("body", ())] + fin)


@contract(X + "tryf", name=X + "tryf (exceptions from the parts)", variants=["handler", "else", "finally", "finally_after_raise", "finally_after_handler"])
def _(v, how):
    log = []
    e, e2, r = exc(v, "e"), exc(v, "e2"), v.obj("r")
    T = etype(v, "T")
    v.assume(matches(e, T))
    v.assume(e.t != e2.t)
    fin = hfn(log, "finally", 0, None, e2 if how.startswith("finally") else None)
    if how == "handler": th = lambda: v.call(X + "tryf", hfn(log, "body", 0, r, e), (T, hfn(log, "h", 1, r, e2)), finallyf=fin)
    elif how == "else": th = lambda: v.call(X + "tryf", hfn(log, "body", 0, r), (T, hfn(log, "h", 1, r)), elsef=hfn(log, "else", 0, r, e2), finallyf=fin)
    elif how == "finally": th = lambda: v.call(X + "tryf", hfn(log, "body", 0, r), finallyf=fin)
    elif how == "finally_after_raise": th = lambda: v.call(X + "tryf", hfn(log, "body", 0, r, e), finallyf=fin)
    else: th = lambda: v.call(X + "tryf", hfn(log, "body", 0, r, e), (T, hfn(log, "h", 1, r)), finallyf=fin)
    k, x = v.attempt(th)
    v.oblige("raises", z3.BoolVal(k == "raise"))
    v.same("the part's exception", x, e2)
    want = {"handler": ["body", "h", "finally"], "else": ["body", "else", "finally"], "finally": ["body", "finally"], "finally_after_raise": ["body", "finally"], "finally_after_handler": ["body", "h", "finally"]}[how]
    v.oblige("what ran, in order", z3.BoolVal([n for n, a in log] == want))


def table(v, name):
    """arbitrarily many (type, thing) entries: their element function and 'no entry below i matches e'"""
    T, H = z3.Function(name + "_T", I, U), z3.Function(name + "_H", I, U)
    e = exc(v, "e")
    SI = toU(StopIteration)      # a StopIteration leaving a generator-based context manager is changed by contextlib
    v.assume(z3.Not(md.issub(md.typeof(e.t), SI)))
    def elem(i):
        v.c.assume(z3.And(z3.Not(md.issub(md.typeof(H(i)), SI)), H(i) != e.t))
        v.c.assume(z3.And(md.issub(T(i), BE()), z3.Not(z3.Function("isinstance_tuple", U, B)(T(i)))))
        return (SU(T(i)), SU(H(i)))
    m = lambda i: md.issub(md.typeof(e.t), T(i))
    none = z3.Function("none_below", I, B)
    v.assume(none(0))
    v.c.recdef(lambda i: z3.Implies(i >= 0, none(i + 1) == z3.And(none(i), z3.Not(m(i)))))
    v.c.preds.append(none)
    return T, H, e, elem, m, none


@contract(X + "tryf", name=X + "tryf (any number of handlers)")
def _(v):
    T, H, e, elem, m, none = table(v, "h")
    s = v.source("handlers", "tuple", elem)
    log = []
    r = v.obj("r")
    def apply(p, f, args, kw):
        v.oblige("called with the exception", z3.BoolVal(len(args) == 1 and not kw))
        v.same("called with the exception", args[0], e)
        v.oblige("a handler of the list", z3.BoolVal(f.t.decl().name() == "h_H"))
        k = f.t.arg(0)
        v.c.index(k)
        v.oblige("first matching handler", z3.And(k >= 0, k < s.n, none(k), m(k)))
        log.append("h")
        return SU(z3.Function("hres", U, U)(f.t))
    v.c.on_apply = apply
    def unknown(p, a, kw): raise PyRaise(mkexc(v.get("unpythonic.arity:UnknownArity")))
    v.p.summaries["unpythonic.arity:arity_includes"] = unknown       # (handlers of known arity: the contract above)
    raises = v.choose(2)
    fin = hfn(log, "finally", 0)
    args = sconcat(CSeq((hfn(log, "body", 0, r, e if raises else None),)), s.seq)
    k, x = v.attempt(lambda: md.call_symargs(v.p, v.get(X + "tryf"), args, {"finallyf": fin}))
    names = [x if isinstance(x, str) else x[0] for x in log]
    v.oblige("finally last, once", z3.BoolVal(names[-1:] == ["finally"] and names.count("finally") == 1 and names.count("h") <= 1))
    if not raises:
        v.oblige("no handler runs", z3.BoolVal("h" not in log and k == "ok")); v.same("value", x, r); return
    if k == "raise":
        v.c.index(s.n)
        v.oblige("propagates only if none matches", none(s.n)); v.same("the same exception", x, e)
        v.oblige("no handler ran", z3.BoolVal("h" not in log))
    else: v.oblige("a handler ran", z3.BoolVal("h" in log))


@contract(X + "tryf", name=X + "tryf (malformed handlers)", variants=["value", "class", "tuple", "instance"])
def _(v, how):
    log = []
    bad = {"value": 42, "class": int, "tuple": (ValueError, int), "instance": mkexc(ValueError)}[how]
    v.must_raise("refused", TypeError, lambda: v.call(X + "tryf", hfn(log, "body", 0, 1), (bad, hfn(log, "h", 1))))
    v.oblige("body not run", z3.BoolVal(not log))


@contract(X + "reraise_in", variants=["reraise_in", "reraise"])
def _(v, how):
    """any number of entries, in the mapping's order"""
    T, H, e, elem, m, none = table(v, "map")
    s = v.source("entries", "list", elem)
    mapping = v.inst("M")
    def key(i): elem(i); return SU(T(i))
    ks = STuple(SSeq(s.n, key))
    def getitem(p, a, k):
        if not (isinstance(a[-1], SU) and z3.is_app(a[-1].t) and a[-1].t.decl().name() == "map_T"): raise Unsupported("look-up of some other key")
        return SU(H(a[-1].t.arg(0)))
    v.note_source(ks.seq) if hasattr(ks, "seq") else None
    cells = mapping.cls.cells
    cells["items"] = md.StaticM(Fn(lambda p, a, k: s.value, "items"))
    cells["keys"] = md.StaticM(Fn(lambda p, a, k: ks, "keys")); cells["values"] = md.StaticM(Fn(lambda p, a, k: STuple(SSeq(s.n, lambda i: elem(i)[1])), "values"))
    cells["__iter__"] = Fn(lambda p, a, k: md.py_iter(p, ks), "__iter__"); cells["__getitem__"] = Fn(getitem, "__getitem__"); cells["__len__"] = Fn(lambda p, a, k: SInt(s.n), "__len__")
    r = v.obj("r")
    raises = v.choose(2)
    log = []
    if how == "reraise_in":
        th = lambda: v.call(X + how, hfn(log, "body", 0, r, e if raises else None), mapping)
    else:
        def th():
            cm = v.call(X + how, mapping)
            v.method(cm, "__enter__")
            if not raises:
                x = v.method(cm, "__exit__", None, None, None)
                v.oblige("does not claim to handle", z3.Not(v.truthy(x)))
                return r
            x = v.method(cm, "__exit__", SU(md.typeof(e.t)), e, None)
            if v.p.truth(x): v.oblige("the exception is never swallowed", False)
            raise PyRaise(e)
    k, x = v.attempt(th)
    if not raises:
        v.oblige("no exception", z3.BoolVal(k == "ok")); v.same("value", x, r); return
    v.oblige("raises", z3.BoolVal(k == "raise"))
    if isinstance(x, SU) and z3.is_app(x.t) and x.t.decl().name() == "map_H":
        j = x.t.arg(0); v.c.index(j)
        v.oblige("converted by the first matching entry", z3.And(j >= 0, j < s.n, none(j), m(j)))
        v.oblige("cause given", z3.BoolVal(bool(v.c.causes)))
        v.same("raised object", v.c.causes[-1][0], x)
        v.same("its cause is the original", v.c.causes[-1][1], e)
    else:
        v.same("everything else passes unchanged", x, e)
        v.c.index(s.n)
        v.oblige("nothing matched", none(s.n))


@contract(X + "reraise", name=X + "reraise (concrete hierarchy)", variants=[(w, a) for w in ("reraise_in", "reraise") for a in ("class", "instance")])
def _(v, var):
    how, what = var
    A = ClassObj("A", [Exception], {}, None); A2 = ClassObj("A2", [A], {}, None); B_ = ClassObj("B", [Exception], {}, None); C = ClassObj("C", [Exception], {}, None)
    raised = [A, A2, B_, KeyboardInterrupt][v.choose(4)]
    e = mkexc(raised)
    target = C if what == "class" else mkexc(C)
    d = DictObj()
    d.raw_set([A, (A, B_)][v.choose(2)], target)
    key = d.entries[0][0]
    def body(p, a, k): raise PyRaise(e)
    if how == "reraise_in": th = lambda: v.call(X + how, Fn(body, "b"), d)
    else:
        def th():
            cm = v.call(X + how, d)
            v.method(cm, "__enter__")
            if v.p.truth(v.method(cm, "__exit__", raised, e, None)): v.oblige("never swallowed", False)
            raise PyRaise(e)
    k, x = v.attempt(th)
    v.oblige("raises", z3.BoolVal(k == "raise"))
    hit = raised in (A, A2) or raised is B_ and isinstance(key, tuple)
    if hit:
        v.oblige("converted", z3.BoolVal(x.cls is C and (what == "class" or x is target)))
        v.oblige("from the original", z3.BoolVal(x.cells["__cause__"] is e))
    else: v.oblige("passes unchanged", z3.BoolVal(x is e))


@contract(X + "raisef", variants=[(a, c) for a in ("class", "instance", "user_instance") for c in ("none", "absent", "exc", "falsy")])
def _(v, var):
    what, cause = var
    A = ClassObj("A", [Exception], {}, None)
    o = A if what == "class" else mkexc(A, 1) if what == "instance" else mkexc(ValueError, v.obj("m"))
    if cause == "falsy":
        F = ClassObj("F", [Exception], {"__bool__": Fn(lambda p, a, k: False, "__bool__")}, None)
        cz = mkexc(F)
    else: cz = mkexc(KeyError) if cause == "exc" else None
    kw = {} if cause == "absent" else {"cause": cz}
    k, x = v.attempt(lambda: v.call(X + "raisef", o, **kw))
    v.oblige("raises", z3.BoolVal(k == "raise"))
    v.oblige("what was given", z3.BoolVal(x is o if what != "class" else x.cls is A))
    if cause in ("none", "absent"): v.oblige("no cause", z3.BoolVal(x.cells["__cause__"] is None))
    else: v.oblige("the given cause", z3.BoolVal(x.cells["__cause__"] is cz))

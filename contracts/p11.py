"""P11: environments show exactly the current bindings, and the protection rules hold.

Induction over the history: from every state (which of two names are bound, to which values, finalized or not) every
operation leads to the documented result, views and protection, and to a state that construction alone reaches."""
from spec import *
from lib import *
E = {"env": "unpythonic.env:env", "assignonce": "unpythonic.assignonce:assignonce"}
ASSUMPTIONS = ["names not mentioned in an operation are represented by one other name (dict operations on one key do not depend on the others)",
               "values and names given to one operation are not changed by other code meanwhile"]
TRUSTED = ["dict: insertion-ordered finite map with the documented operations (pyvc/models.py)"]


def build(v, cls, st, fin):
    e = v.total("construct", lambda: v.call(E[cls], **st))
    if fin: v.total("finalize", lambda: v.method(e, "finalize"))
    return e


def look(v, e, st, when=""):
    """all views show exactly st"""
    p = v.p
    for n in ("x", "y", "w"):
        if n in st:
            v.same(f"attribute {n}" + when, v.total("getattr", lambda: p.getattr(e, n)), st[n])
            v.same(f"item {n}" + when, v.total("getitem", lambda: p.getitem(e, n)), st[n])
            v.same(f"get {n}" + when, v.total("get", lambda: v.method(e, "get", n, 7)), st[n])
        else:
            v.must_raise(f"unbound attribute {n}" + when, AttributeError, lambda: p.getattr(e, n))
            v.must_raise(f"unbound item {n}" + when, AttributeError, lambda: p.getitem(e, n))
            v.same(f"get {n} default" + when, v.total("get", lambda: v.method(e, "get", n, 7)), 7)
            v.same(f"get {n} None" + when, v.total("get", lambda: v.method(e, "get", n)), None)
        v.oblige(f"membership {n}" + when, v.truthy(v.total("in", lambda: v.contains(e, n))) == z3.BoolVal(n in st))
    v.same("len" + when, v.total("len", lambda: md.py_len(p, e)), len(st))
    v.same("iteration" + when, v.total("iter", lambda: v.items(e)), CSeq(list(st)))
    for m, want in (("keys", list(st)), ("values", list(st.values())), ("items", list(st.items()))):
        v.same(m + when, v.total(m, lambda: v.items(v.method(e, m))), CSeq(want))
    d = DictObj()
    for k, x in st.items(): d.raw_set(k, x)
    v.oblige("equal to the dict of its bindings" + when, v.truthy(v.total("==", lambda: md.py_eq(p, e, d))))
    for drop in st:
        d = DictObj()
        for k, x in st.items():
            if k != drop: d.raw_set(k, x)
        v.oblige(f"not equal to the dict without {drop}" + when, z3.Not(v.truthy(v.total("==", lambda: md.py_eq(p, e, d)))))
    d = DictObj()
    for k, x in st.items(): d.raw_set(k, x)
    d.raw_set("other", v.obj("other"))
    v.oblige("not equal to a dict with one more name" + when, z3.Not(v.truthy(v.total("==", lambda: md.py_eq(p, e, d)))))


STATES = [(h, f) for h in ("", "x", "y", "xy", "yx") for f in (0, 1)]
OPS = ["setattr", "setitem", "set", "lshift", "update_kw", "update_map", "update_two", "update_kw_two", "update_pairs", "setdefault", "setdefault_none", "delattr", "delitem", "pop", "pop_default", "popitem", "clear", "finalize", "with", "none"]


@contract(E["env"], name="unpythonic.env:env (history of any length)", variants=[(c, h, f, o) for c in E for h, f in STATES for o in OPS])
def _(v, var):
    cls, h, fin, op = var
    p = v.p
    st = {n: v.obj("v" + n) for n in h}
    z, w = v.obj("z"), v.obj("w")
    e = build(v, cls, st, fin)
    look(v, e, st)
    once = cls == "assignonce"
    def put(kind, name, th, val=None):
        """an operation that binds name"""
        if name in st:
            if once and kind != "set": return ("raise", AttributeError)
            st[name] = z; return ("ok", val)
        if fin or kind == "set": return ("raise", AttributeError)
        st[name] = z; return ("ok", val)
    exp = None
    if op == "setattr": th = lambda: p.setattr(e, "x", z); exp = put("", "x", th, None)
    elif op == "setitem": th = lambda: p.setitem(e, "x", z); exp = put("", "x", th, None)
    elif op == "set": th = lambda: v.method(e, "set", "x", z); exp = put("set", "x", th, z)
    elif op == "lshift": th = lambda: p.binop(ast.LShift(), e, ("x", z)); exp = put("set", "x", th, e)
    elif op == "update_kw": th = lambda: v.method(e, "update", x=z); exp = put("", "x", th, None)
    elif op in ("update_map", "update_pairs"):
        def th():
            d = DictObj(); d.raw_set("x", z)
            return v.method(e, "update", d if op == "update_map" else ListObj(CSeq((("x", z),))))
        exp = put("", "x", th, None)
        if op == "update_pairs" and fin: exp = ("free", None)
        if exp[0] == "free": st = {n: SU(z3.Const("v" + n, U)) for n in h}
    elif op in ("update_two", "update_kw_two"):
        def th():
            if op == "update_kw_two": return v.method(e, "update", x=z, y=w)
            d = DictObj(); d.raw_set("x", z)
            return v.method(e, "update", d, y=w)
        if fin and not {"x", "y"} <= set(st): exp = ("raise", AttributeError)
        elif once and ({"x", "y"} & set(st)):
            exp = ("partial", AttributeError)
        else: st["x"] = z; st["y"] = w; exp = ("ok", None)
    elif op in ("setdefault", "setdefault_none"):
        val = z if op == "setdefault" else None
        th = lambda: v.method(e, "setdefault", *(["x", z] if op == "setdefault" else ["x"]))
        if "x" in st: exp = ("ok", st["x"])
        elif fin: exp = ("raise", AttributeError)
        else: st["x"] = val; exp = ("ok", val)
    elif op in ("delattr", "delitem"):
        th = lambda: p.delattr(e, "x") if op == "delattr" else p.delitem(e, "x")
        if fin: exp = ("raise", TypeError)
        elif "x" in st: del st["x"]; exp = ("ok", None)
        else: exp = ("raise", AttributeError)
    elif op in ("pop", "pop_default"):
        th = lambda: v.method(e, "pop", *(["x", w] if op == "pop_default" else ["x"]))
        if fin: exp = ("raise", TypeError)
        elif "x" in st: exp = ("ok", st.pop("x"))
        else: exp = ("ok", w) if op == "pop_default" else ("raise", KeyError)
    elif op == "popitem":
        th = lambda: v.method(e, "popitem")
        if fin: exp = ("raise", TypeError)
        elif st: exp = ("ok", st.popitem())
        else: exp = ("raise", KeyError)
    elif op == "clear":
        th = lambda: v.method(e, "clear")
        if fin: exp = ("raise", TypeError)
        else: st.clear(); exp = ("ok", None)
    elif op == "finalize":
        th = lambda: v.method(e, "finalize"); exp = ("ok", None); fin = 1
    elif op == "with":
        def th():
            cm = v.method(e, "__enter__")
            v.same("with binds the environment itself", cm, e)
            v.method(e, "__exit__", None, None, None)
            return None
        st.clear(); exp = ("ok", None)
    else:
        th = lambda: None; exp = ("ok", None)
    if exp[0] == "ok":
        r = v.total(op, th)
        if exp[1] is not None or op in ("setdefault_none",): v.same(f"result of {op}", r, exp[1])
    elif exp[0] == "raise": v.must_raise(op, exp[1], th)
    elif exp[0] == "partial":
        v.must_raise(op, exp[1], th)
        # assign-once: whatever was bound before is unchanged
        for n in h: v.same(f"{n} never changes", v.total("getattr", lambda: p.getattr(e, n)), st[n])
        return
    else:
        k, _ = v.attempt(th)
        for n in h:
            if k == "raise": v.same(f"{n} unchanged", v.total("getattr", lambda: p.getattr(e, n)), st[n])
        v.same("no name added", v.total("len", lambda: md.py_len(p, e)), len(st))
        return
    look(v, e, st, f" after {op}")
    v.canon("state is one that construction reaches", e, build(v, cls, st, fin))


@contract(E["env"], name="unpythonic.env:env (rejected names)", variants=[(c, f, n) for c in E for f in (0, 1) for n in ("set", "clear", "finalize", "_reserved_names", "1x", "", "a b", "a-b")])
def _(v, var):
    cls, fin, name = var
    p = v.p
    st = {"x": v.obj("vx")}
    z = v.obj("z")
    e = build(v, cls, st, fin)
    ok = name.isidentifier()
    def ths():
        yield "setattr", lambda: p.setattr(e, name, z)
        yield "setitem", lambda: p.setitem(e, name, z)
        yield "update", lambda: v.method(e, "update", **{name: z})
        yield "setdefault", lambda: v.method(e, "setdefault", name, z)
        yield "set", lambda: v.method(e, "set", name, z)
        yield "lshift", lambda: p.binop(ast.LShift(), e, (name, z))
    for n, th in ths():
        k, x = v.attempt(th)
        v.oblige(f"{n} rejects the name", z3.BoolVal(k == "raise"))
        look(v, e, st, f" after rejected {n}")
        v.oblige(f"{n} binds nothing", v.truthy(v.contains(e, name)) == z3.BoolVal(False))
    k, x = v.attempt(lambda: v.call(E[cls], **{name: z}))
    v.oblige("construction rejects the name", z3.BoolVal(k == "raise"))


@contract(E["env"], name="unpythonic.env:env (two environments)", variants=list(E))
def _(v, cls):
    a, b = v.obj("a"), v.obj("b")
    e1, e2 = build(v, cls, {"x": a}, 0), build(v, cls, {}, 0)
    v.p.setattr(e2, "x", b)
    look(v, e1, {"x": a}, " (first)"); look(v, e2, {"x": b}, " (second)")
    v.method(e1, "finalize")
    v.total("the other is not finalized", lambda: v.p.setattr(e2, "y", a))
    look(v, e2, {"x": b, "y": a}, " (second)")
    v.method(e1, "__exit__", None, None, None)
    look(v, e2, {"x": b, "y": a}, " (second)"); look(v, e1, {}, " (first)")


@contract(E["env"], name="unpythonic.env:env (leaving a with block by an exception)", variants=list(E))
def _(v, cls):
    e = build(v, cls, {"x": v.obj("a")}, v.choose(2))
    x = mkexc(ValueError)
    r = v.total("exit", lambda: v.method(e, "__exit__", ValueError, x, None))
    v.oblige("the exception is not swallowed", z3.Not(v.truthy(r)))
    look(v, e, {})

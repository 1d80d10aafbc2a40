"""P19: boxes hold exactly the last value set, per box and per thread."""
from spec import *
from lib import *
C = "unpythonic.collections:"
TRUSTED = ["threading.local: one attribute set per thread (pyvc/models.py)"]
ASSUMPTIONS = ["== between user objects is total and answers the same each time it is asked (an uninterpreted relation)"]


def look(v, b, x, when=""):
    """every reading route shows x"""
    v.same("get" + when, v.total("get", lambda: v.method(b, "get")), x)
    v.same("unbox" + when, v.total("unbox", lambda: v.call(C + "unbox", b)), x)
    v.stream("iteration" + when, v.total("iter", lambda: py_iter(v.p, b)), CSeq((x,)))
    v.same("len" + when, v.total("len", lambda: md.py_len(v.p, b)), 1)
    o = v.obj("other")
    v.oblige("membership" + when, v.truthy(v.total("in", lambda: v.contains(b, o))) == v.eq(x, o))
    v.oblige("equality" + when, v.truthy(v.total("==", lambda: md.py_eq(v.p, b, o))) == v.eq(o, x))


@contract(C + "box", name=C + "box (history of any length)", variants=["box"])
def _(v, cls):
    """state after any history == state of a fresh box holding the last value (induction on the history)"""
    a, z = v.obj("a"), v.obj("z")
    b = v.total("construct", lambda: v.call(C + cls, a))
    look(v, b, a)
    op = v.choose(2)
    r = v.total("set", lambda: v.method(b, "set", z) if op == 0 else v.p.binop(ast.LShift(), b, z))
    v.same("set returns the value", r, z)
    look(v, b, z, " after set")
    v.canon("state is that of a fresh box", b, v.call(C + cls, z))
    look(v, b, z, " again")
    v.canon("reading changes nothing", b, v.call(C + cls, z))


@contract(C + "box", name=C + "box (default content)", variants=["box", "ThreadLocalBox", "Some"])
def _(v, cls):
    v.same("None", v.method(v.total("construct", lambda: v.call(C + cls)), "get"), None)


@contract(C + "Some")
def _(v):
    a = v.obj("a")
    s = v.total("construct", lambda: v.call(C + "Some", a))
    look(v, s, a)
    v.canon("reading changes nothing", s, v.call(C + "Some", a))
    for m in ("set", "clear", "__lshift__"):
        v.must_raise(f"no way to {m}", AttributeError, lambda: v.p.getattr(s, m))
    look(v, s, a, " again")


@contract(C + "unbox", name=C + "unbox (not a box)")
def _(v):
    for x in (1, "x", None, (1,)):
        v.must_raise(f"unbox {x!r}", TypeError, lambda: v.call(C + "unbox", x))
    v.must_raise("unbox of some object", TypeError, lambda: v.call(C + "unbox", v.inst()))
    v.must_raise("unbox of a list", TypeError, lambda: v.call(C + "unbox", ListObj(CSeq((1,)))))


# ---- two boxes do not influence each other
@contract(C + "box", name=C + "box (two boxes)", variants=["box", "ThreadLocalBox"])
def _(v, cls):
    a, b, z = v.obj("a"), v.obj("b"), v.obj("z")
    x, y = v.call(C + cls, a), v.call(C + cls, b)
    v.method(x, "set", z)
    v.same("other box", v.method(y, "get"), b)
    v.same("this box", v.method(x, "get"), z)


# ---- ThreadLocalBox: state = (default, per-thread value or unset); two threads and one step of either are enough,
#      since no method looks at more than its own thread's slot (checked by the state comparison)
def tlb_state(v, d, x0, x1):
    """a box in an arbitrary state: default d, thread t holds xt (or nothing when None is given)"""
    b = v.total("construct", lambda: v.call(C + "ThreadLocalBox", d))
    for t, x in ((0, x0), (1, x1)):
        v.thread(t)
        if x is not None: v.total("set", lambda: v.method(b, "set", x))
    v.thread(0)
    return b


@contract(C + "ThreadLocalBox", name=C + "ThreadLocalBox (history of any length)", variants=[(s0, s1, t, op) for s0 in (0, 1) for s1 in (0, 1) for t in (0, 1) for op in ("set", "lshift", "clear", "setdefault", "none")])
def _(v, var):
    s0, s1, t, op = var
    d, z = v.obj("d"), v.obj("z")
    xs = [v.obj("x0") if s0 else None, v.obj("x1") if s1 else None]
    b = tlb_state(v, d, *xs)
    v.thread(t)
    if op == "set": v.same("set returns the value", v.total(op, lambda: v.method(b, "set", z)), z); xs[t] = z
    elif op == "lshift": v.same("<< returns the value", v.total(op, lambda: v.p.binop(ast.LShift(), b, z)), z); xs[t] = z
    elif op == "clear": v.total(op, lambda: v.method(b, "clear")); xs[t] = None
    elif op == "setdefault": v.total(op, lambda: v.method(b, "setdefault", z)); d = z
    for u in (0, 1):
        v.thread(u)
        look(v, b, xs[u] if xs[u] is not None else d, f" in thread {u}")
        v.same("getdefault", v.total("getdefault", lambda: v.method(b, "getdefault")), d)
    v.canon("state is one that construction and one set per thread reach", b, tlb_state(v, d, *xs))


# ---- Shim
@contract(C + "Shim", variants=[(h, f, c) for h in (0, 1) for f in ("none", "obj", "box") for c in ("box", "ThreadLocalBox")])
def _(v, var):
    h, f, cls = var
    a, a2, fbv, z = v.obj("a"), v.obj("a2"), v.obj("fbv"), v.obj("z")
    t1 = v.inst("T", own=v.obj("o1"), **({"attr": a} if h else {}))
    t2 = v.inst("T", attr=a2)
    fbo = v.inst("F", attr=fbv, only=z)
    fb = {"none": None, "obj": fbo, "box": v.call(C + "box", fbo)}[f]
    b = v.call(C + cls, t1)
    s = v.total("construct", lambda: v.call(C + "Shim", b, fb))
    if h: v.same("reads the boxed object", v.total("read", lambda: v.p.getattr(s, "attr")), a)
    elif f == "none": v.must_raise("missing attribute", AttributeError, lambda: v.p.getattr(s, "attr"))
    else: v.same("reads the fallback", v.total("read", lambda: v.p.getattr(s, "attr")), fbv)
    v.must_raise("attribute nobody has", AttributeError, lambda: v.p.getattr(s, "nobody"))
    # rebinding the box redirects
    v.method(b, "set", t2)
    v.same("reads what the box holds now", v.total("read", lambda: v.p.getattr(s, "attr")), a2)
    # writes go to the boxed object and nowhere else
    w = v.obj("w")
    k = "attr" if v.choose(2) == 0 else "only"
    v.total("write", lambda: v.p.setattr(s, k, w))
    v.same("written to the boxed object", v.p.getattr(t2, k), w)
    v.same("read back", v.total("read", lambda: v.p.getattr(s, k)), w)
    v.same("fallback untouched", fbo.cells["attr"], fbv)
    v.same("fallback untouched (2)", fbo.cells["only"], z)
    v.oblige("old content untouched", z3.BoolVal("only" not in t1.cells and t1.cells.get("attr", a) is a))
    v.same("box still holds the object", v.method(b, "get"), t2)


@contract(C + "Shim", name=C + "Shim (not a box)")
def _(v):
    for x in (1, None):
        v.must_raise("first argument must be a box", TypeError, lambda: v.call(C + "Shim", x))

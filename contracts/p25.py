"""P25: symbols and singletons are unique, across threads and pickling."""
from spec import *
from lib import *
S, G = "unpythonic.symbol:", "unpythonic.singleton:"
TRUSTED = ["uuid.uuid4 gives a value different from every other one", "WeakValueDictionary keeps an entry as long as its object is referenced (modelled as a dict)",
           "pickle (protocol 2 and up) and copy rebuild an object as cls.__new__(cls, *obj.__getnewargs__()) followed by updating its attributes, or as its __reduce__ says",
           "other threads run the same code: they change a table only while holding a module-level lock (rely), or at any time when the code under verification holds none; one access of a table is atomic"]


def locked(v):
    """does this thread hold a lock that other threads share (made at import, not in the call)?"""
    return any(isinstance(o, LockObj) and o.uid < 0 and o.get("held") for o in v.c.objs.values())


def table(v, q):
    t = v.get(q)
    if not isinstance(t, DictObj): raise Unsupported("the table is not a mapping")
    t.shared = True
    return t


def interfering(v, t, key, make):
    """another thread may register make() under key whenever this thread holds no shared lock; returns the list of what it got"""
    got = []
    created = v.c.created = []
    def act(p):
        if got or not v.c.choose(2): return
        h, v.c.on_table = v.c.on_table, None
        r = dict_get(p, t, key)
        if r is None: x = make(); dict_set(p, t, key, x); created.append(x)
        else: x = r[0]
        got.append(x)
        v.c.on_table = h
    def hook(p, d, k, kind):
        if d is t and not locked(v): act(p)
    def acquire(p, lock):
        if lock.get("held") == 1:          # (until now the lock was free)
            lock.set("held", 0)
            if not locked(v): act(p)
            lock.set("held", 1)
    v.c.on_table = hook
    v.c.x.on_acquire = acquire
    return got


def mksym(v, name):
    o = InstObj(v.get(S + "sym"))
    if v.choose(2): o.set("name", name)
    return o


def look(v, t, k):
    v.c.on_table = None
    return dict_get(v.p, t, k)


@contract(S + "sym", name=S + "sym (lookups)")
def _(v):
    n, m = v.obj("n"), v.obj("m")
    t = table(v, S + "_symbols")
    x = v.total("sym", lambda: v.call(S + "sym", n))
    v.same("name", v.p.getattr(x, "name"), n)
    v.oblige("registered", z3.BoolVal(look(v, t, n) is not None and look(v, t, n)[0] is x))
    y = v.total("sym", lambda: v.call(S + "sym", m))
    if v.case(n.t == m.t): v.oblige("one object per name", z3.BoolVal(x is y))
    else: v.oblige("different names, different objects", z3.BoolVal(x is not y))
    z = v.total("sym", lambda: v.call(S + "sym", n))
    v.oblige("one object per name, whatever was looked up between", z3.BoolVal(x is z))
    v.same("name unchanged", v.p.getattr(x, "name"), n); v.same("name unchanged", v.p.getattr(y, "name"), m)
    v.oblige("a Symbol", bz(md.py_isinstance(v.p, x, v.get(S + "Symbol"))))
    v.oblige("equality is identity", v.eq(x, y) == z3.BoolVal(x is y))


@contract(S + "sym", name=S + "sym (other threads)", variants=["empty", "present"])
def _(v, how):
    n = v.obj("n")
    t = table(v, S + "_symbols")
    old = None
    if how == "present":
        old = InstObj(v.get(S + "sym")); old.set("name", n); t.raw_set(n, old)
    got = interfering(v, t, n, lambda: mksym(v, n))
    x = v.total("sym", lambda: v.call(S + "sym", n))
    r = look(v, t, n)
    v.oblige("every thread gets the registered object", z3.BoolVal(r is not None and r[0] is x and (not got or got[0] is x) and (old is None or x is old)))
    v.same("name", v.p.getattr(x, "name"), n)


@contract(S + "sym", name=S + "sym (pickling and copying)")
def _(v):
    n = v.obj("n")
    x = v.call(S + "sym", n)
    y = v.total("unpickle", lambda: md.reduce_copy(v.p, x))
    v.oblige("the same object", z3.BoolVal(y is x)); v.same("name", v.p.getattr(x, "name"), n)
    t = table(v, S + "_symbols"); t.set("m", ())
    z = v.total("unpickle in another process", lambda: md.reduce_copy(v.p, x))
    v.same("name", v.p.getattr(z, "name"), n)
    v.oblige("registered there", z3.BoolVal(v.total("sym", lambda: v.call(S + "sym", n)) is z))


def uuids(v):
    made = []
    def uuid4(p, a, kw):
        u = SU(v.c.u("uuid"))
        for o in made: v.assume(o.t != u.t)
        made.append(u)
        return u
    v.p.overrides[S + "uuid"] = NativeMod("uuid", {"uuid4": Builtin("uuid4", uuid4)})
    return made


@contract(S + "gensym")
def _(v):
    uuids(v)
    a, b = v.obj("a"), v.obj("b")
    x = v.total("gensym", lambda: v.call(S + "gensym", a)); y = v.total("gensym", lambda: v.call(S + "gensym", b)); s = v.call(S + "sym", a)
    v.oblige("distinct, also with one label", z3.BoolVal(x is not y))
    v.oblige("never a named symbol", z3.BoolVal(x is not s and y is not s))
    v.oblige("never equal", z3.And(z3.Not(v.eq(x, y)), z3.Not(v.eq(x, s)), z3.Not(v.eq(s, x))))
    v.same("label", v.p.getattr(x, "label"), a); v.same("label", v.p.getattr(y, "label"), b)
    v.oblige("a Symbol", bz(md.py_isinstance(v.p, x, v.get(S + "Symbol"))))
    z = v.total("unpickle", lambda: md.reduce_copy(v.p, x))
    v.oblige("pickling keeps the identity", z3.BoolVal(z is x)); v.same("label unchanged", v.p.getattr(x, "label"), a)
    w = v.total("unpickle", lambda: md.reduce_copy(v.p, y))
    v.oblige("pickling keeps the identity", z3.BoolVal(w is y))
    u = v.total("gensym", lambda: v.call(S + "gensym", a))
    v.oblige("distinct from all before", z3.BoolVal(u is not x and u is not y and u is not s))


@contract(S + "gsym", name=S + "gsym (unpickled by several threads)")
def _(v):
    u, lab = v.obj("uid"), v.obj("label")
    t = table(v, S + "_gensyms")
    def other():
        o = InstObj(v.get(S + "gsym"))
        if v.choose(2): o.set("uid", u); o.set("label", lab)
        return o
    x0 = other(); x0.set("uid", u); x0.set("label", lab)
    got = interfering(v, t, u, other)
    x = v.total("unpickle", lambda: md.reduce_copy(v.p, x0))
    r = look(v, t, u)
    v.oblige("every thread gets the registered object", z3.BoolVal(r is not None and r[0] is x and (not got or got[0] is x)))
    v.same("uid", v.p.getattr(x, "uid"), u); v.same("label", v.p.getattr(x, "label"), lab)


def mkcls(v, name, bases=None, init=None):
    ns = {}
    return make_class(v.p, name, bases or [v.get(G + "Singleton")], ns, None, v.get(G + "ThereCanBeOnlyOne"))


@contract(G + "Singleton")
def _(v):
    A = mkcls(v, "A"); B = mkcls(v, "B"); C = mkcls(v, "C", [A])
    t = table(v, G + "_instances")
    a = v.total("first construction", lambda: v.call(A))
    v.oblige("of the class", bz(md.py_isinstance(v.p, a, A)))
    k, e = v.attempt(lambda: v.call(A))
    v.oblige("a second construction is refused", z3.BoolVal(k == "raise"))
    if k == "raise": v.exc_is("a second construction is refused/TypeError", e, TypeError)
    b = v.total("another class is independent", lambda: v.call(B)); c = v.total("a subclass is independent", lambda: v.call(C))
    v.oblige("one instance per class", z3.BoolVal(len({a.uid, b.uid, c.uid}) == 3 and a.cls is A and b.cls is B and c.cls is C))
    for o, K in ((a, A), (b, B), (c, C)):
        v.oblige("still the registered one", z3.BoolVal(look(v, t, K) is not None and look(v, t, K)[0] is o))
        v.must_raise("a second construction is refused", TypeError, lambda: v.call(K))
        v.oblige("unpickling gives the existing instance", z3.BoolVal(v.total("unpickle", lambda: md.reduce_copy(v.p, o)) is o))
    t.set("m", ())          # all instances gone (collected), or another process
    d = v.total("unpickle without an instance", lambda: md.reduce_copy(v.p, a))
    v.oblige("becomes the instance", z3.BoolVal(look(v, t, A) is not None and look(v, t, A)[0] is d))
    v.must_raise("then construction is refused", TypeError, lambda: v.call(A))


@contract(G + "Singleton", name=G + "Singleton (other threads)", variants=["construct", "unpickle"])
def _(v, how):
    A = mkcls(v, "A")
    t = table(v, G + "_instances")
    got = interfering(v, t, A, lambda: InstObj(A))
    th = (lambda: v.call(A)) if how == "construct" else (lambda: md.reduce_copy(v.p, InstObj(A)))
    k, x = v.attempt(th)
    r = look(v, t, A)
    if k == "ok": v.oblige("at most one instance", z3.BoolVal(r is not None and r[0] is x and (not got or got[0] is x) and not (how == "construct" and v.c.created)))
    else:
        v.exc_is("refused", x, TypeError)
        v.oblige("refused only if there is one", z3.BoolVal(how == "construct" and bool(got) and r[0] is got[0]))

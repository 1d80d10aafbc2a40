"""P18: frozen dictionaries behave as immutable dictionaries and hash by content."""
from spec import *
from lib import *
F = "unpythonic.collections:frozendict"
TRUSTED = ["dict: insertion-ordered finite map with the documented operations (pyvc/models.py)",
           "hash of a frozenset depends on the hashes of the elements, not on their order; equal user values have equal hashes",
           "pickle and copy rebuild an object as cls.__new__(cls, *obj.__getnewargs__()) followed by updating its attributes"]
ASSUMPTIONS = ["iteration, length, equality and hash are proved for contents of up to three opaque keys (bounded in size, not in keys and values); lookup, membership and independence of the sources for contents of any size"]


def big(v, name):
    """a dict of any size"""
    h, g = z3.Function("has_" + name, U, B), z3.Function("val_" + name, U, U)
    d = DictObj(MapBase(lambda k: h(k), lambda k: SU(g(k))))
    return d, h, g


@contract(F, name=F + " (contents of any size)", variants=[(n, b) for n in (1, 2, 3) for b in (0, 1)])
def _(v, var):
    n, bind = var
    p = v.p
    k, x, k2, x2 = v.obj("k"), v.obj("x"), v.obj("k2"), v.obj("x2")
    src = [big(v, f"m{i}") for i in range(n)]
    f = v.total("construct", lambda: v.call(F, *[s[0] for s in src], **({"a": x} if bind else {})))
    has, val = z3.BoolVal(False), z3.Const("nothing", U)
    for d, h, g in src: has, val = z3.Or(has, h(k.t)), z3.If(h(k.t), g(k.t), val)
    if bind: a = toU("a"); has, val = z3.Or(has, k.t == a), z3.If(k.t == a, x.t, val)
    def look(when):
        c = v.total("membership" + when, lambda: v.contains(f, k))
        v.oblige("membership" + when, v.truthy(c) == has)
        kind, r = v.attempt(lambda: p.getitem(f, k))
        if kind == "ok": v.oblige("lookup of a present key" + when, has); v.oblige("value" + when, toU(r) == val)
        else: v.oblige("KeyError only for an absent key" + when, z3.Not(has)); v.exc_is("KeyError" + when, r, KeyError)
        r = v.total("get", lambda: v.method(f, "get", k, x2)); v.oblige("get with default" + when, toU(r) == z3.If(has, val, x2.t))
        r = v.total("get", lambda: v.method(f, "get", k)); v.oblige("get" + when, toU(r) == z3.If(has, val, toU(None)))
    look("")
    if v.choose(2):
        d = src[v.choose(n)][0]
        p.setitem(d, k2, x2)
        look(" after a source changed")


def sdict(v, ents):
    d = DictObj()
    for k, x in ents: d.raw_set(k, x)
    return d


def ents(v, name, n, distinct=True):
    es = [(v.obj(f"{name}k{i}"), v.obj(f"{name}v{i}")) for i in range(n)]
    if distinct:
        for i in range(n):
            for j in range(i): v.assume(es[i][0].t != es[j][0].t)
    return es


def content(v, ms):
    """what a dict updated in that order holds: [(key, value)], branching on equal keys"""
    out = []
    for m in ms:
        for k, x in m:
            for j, (kk, _) in enumerate(out):
                if v.case(same(kk, k)): out[j] = (kk, x); break
            else: out.append((k, x))
    return out


def check(v, f, es, tag=""):
    p = v.p
    v.same(tag + "len", v.total("len", lambda: md.py_len(p, f)), len(es))
    v.same(tag + "iteration", v.items(f), CSeq([k for k, _ in es]))
    v.same(tag + "keys", v.items(v.method(f, "keys")), CSeq([k for k, _ in es])); v.same(tag + "values", v.items(v.method(f, "values")), CSeq([x for _, x in es]))
    v.same(tag + "items", v.items(v.method(f, "items")), CSeq(es))
    for k, x in es:
        v.same(tag + "lookup", v.total("lookup", lambda: p.getitem(f, k)), x); v.oblige(tag + "membership", v.truthy(v.contains(f, k)))
        v.same(tag + "get", v.total("get", lambda: v.method(f, "get", k)), x)
    z = v.obj("absent")
    for k, _ in es: v.assume(z.t != toU(k))
    v.must_raise(tag + "absent key", KeyError, lambda: p.getitem(f, z)); v.oblige(tag + "absent key: membership", z3.Not(v.truthy(v.contains(f, z))))
    v.same(tag + "absent key: get", v.method(f, "get", z, 5), 5); v.same(tag + "absent key: get", v.method(f, "get", z), None)
    d = sdict(v, es)
    v.oblige(tag + "equals the dict", z3.And(v.eq(f, d), v.eq(d, f)))


@contract(F, name=F + " (construction order)", variants=[("dict", "dict", 1), ("dict", "pairs", 0), ("pairs", "frozen", 1), ("frozen", "dict", 0), ("frozen", "kw", 1)])
def _(v, var):
    ka, kb, _ = var
    A, Bs = ents(v, "a", 2), ents(v, "b", 1)
    def mk(kind, es):
        if kind == "dict": return sdict(v, es)
        if kind == "pairs": return ListObj(CSeq(es))
        if kind == "frozen": return v.call(F, sdict(v, es))
    if kb == "kw": Bs = [("a", v.obj("bv"))]
    ma, mb = mk(ka, A), mk(kb, Bs)
    f = v.total("construct", lambda: v.call(F, ma, **dict(Bs)) if kb == "kw" else v.call(F, ma, mb))
    want = content(v, [A, Bs])
    check(v, f, want)
    v.oblige("type", z3.BoolVal(f.cls is v.get(F)))
    if ka == "dict":
        p = v.p
        p.setitem(ma, A[0][0], v.obj("other")); p.setitem(ma, v.obj("newkey"), 1)
        check(v, f, want, "after a source changed: ")


@contract(F, name=F + " (equality and hash)", variants=[0, 1, 2, 3])
def _(v, n):
    p = v.p
    A = ents(v, "a", n)
    import itertools
    perm = list(itertools.permutations(range(n)))[v.choose(max(1, [1, 1, 2, 6][n]))]
    vals = [v.obj(f"w{i}") for i in range(n)]
    Bs = [(A[i][0], vals[i]) for i in perm]
    f, g = v.call(F, sdict(v, A)), v.call(F, sdict(v, Bs))
    same_ = z3.And([z3.Or(A[i][1].t == vals[i].t, md.eqU(A[i][1].t, vals[i].t)) for i in range(n)] + [z3.BoolVal(True)])
    v.oblige("equal iff the contents are", z3.And(v.eq(f, g) == same_, v.eq(g, f) == same_))
    v.oblige("equal iff the contents are (dict)", z3.And(v.eq(f, sdict(v, Bs)) == same_, v.eq(sdict(v, Bs), f) == same_))
    h = z3.Function("py_hash", U, I)
    for i in range(n): v.assume(z3.Implies(md.eqU(A[i][1].t, vals[i].t), h(A[i][1].t) == h(vals[i].t)))
    hf, hg = v.total("hash", lambda: md.py_hash(p, f)), v.total("hash", lambda: md.py_hash(p, g))
    v.oblige("equal ones have equal hashes", z3.Implies(same_, iz(hf) == iz(hg)))
    extra = v.call(F, sdict(v, Bs + [(v.obj("ek"), v.obj("ev"))])) if n < 3 else None
    if extra is not None:
        e = dict_entries(p, v.p.getattr(extra, "_data")) if False else None
        for k, _ in A: v.assume(z3.Const("ek", U) != k.t)
        v.oblige("unequal to one with more keys", z3.And(z3.Not(v.eq(f, extra)), z3.Not(v.eq(extra, f))))


@contract(F, name=F + " (copying, pickling, functional update)", variants=[0, 1, 2])
def _(v, n):
    p = v.p
    A = ents(v, "a", n)
    f = v.call(F, sdict(v, A)) if n else v.call(F)
    c = v.total("unpickle", lambda: md.reduce_copy(v.p, f))
    check(v, c, A, "copy: ")
    v.oblige("type", z3.BoolVal(c.cls is f.cls))
    if not n: v.oblige("the empty one stays itself", z3.BoolVal(c is f))
    check(v, f, A, "original after copying: ")
    x = v.obj("x")
    g = v.total("fupdate", lambda: v.call("unpythonic.fup:fupdate", f, q=x))
    check(v, g, content(v, [A, [("q", x)]]), "functional update: ")
    v.oblige("type", z3.BoolVal(g.cls is f.cls and g is not f))
    check(v, f, A, "original after the update: ")
    h = v.total("fupdate", lambda: v.call("unpythonic.fup:fupdate", f))
    check(v, h, A, "functional update by nothing: ")


@contract(F, name=F + " (the empty one)")
def _(v):
    e = v.call(F)
    f = v.total("construct", lambda: v.call(F, a=v.obj("x")))
    v.oblige("always the same object", z3.BoolVal(v.call(F) is e and f is not e))
    check(v, e, [])
    g = v.call(F, DictObj())
    v.oblige("equals other empty ones", z3.And(v.eq(g, e), v.eq(e, g)))
    v.oblige("with equal hash", iz(md.py_hash(v.p, g)) == iz(md.py_hash(v.p, e)))
    check(v, v.call(F), [], "after other constructions: ")


MUT = [("__setitem__", 2), ("__delitem__", 1), ("update", 1), ("pop", 1), ("popitem", 0), ("clear", 0), ("setdefault", 2), ("__ior__", 1)]


@contract(F, name=F + " (no mutating operation)", variants=[m for m, _ in MUT])
def _(v, m):
    A = ents(v, "a", 1)
    f = v.call(F, sdict(v, A))
    k, x = v.attempt(lambda: v.method(f, m, *{"__setitem__": [A[0][0], v.obj("z")], "setdefault": [v.obj("newk"), 1], "__delitem__": [A[0][0]], "pop": [A[0][0]], "update": [sdict(v, [(A[0][0], v.obj("z"))])], "__ior__": [sdict(v, [(A[0][0], v.obj("z"))])]}.get(m, [])))
    v.oblige("refused", z3.BoolVal(k == "raise"))
    check(v, f, A, "after: ")

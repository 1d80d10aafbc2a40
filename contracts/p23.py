"""P23: multiple dispatch.

A family of implementations is real source, registered through the real decorators; the arguments are of unknown class
(isinstance is an uninterpreted relation).  The oracle: the latest implementation that binds and whose types match."""
import itertools, typing
from spec import *
from lib import *
X = "unpythonic.dispatch:"
TRUSTED = ["inspect.signature, typing.get_type_hints and functools.wraps on the program's functions (pyvc/models.py)",
           "the description of an implementation for messages and docstrings (_format_callable) is some text"]
ASSUMPTIONS = ["arguments are of any class (isinstance: an uninterpreted relation that respects the classes' inheritance)",
               "families: the listed ones (up to four implementations, up to three parameters), every way of passing the arguments by position or keyword"]
TYPES = {"int": (int,), "str": (str,), "float": (float,), "bool": (bool,), "Any": None, "Union[int, str]": (int, str), "Optional[str]": (str, type(None)), "A": "A", "B": "B"}
HEAD = """
    from typing import Any, Union, Optional
    from unpythonic.dispatch import generic, augment, typed, isgeneric, list_methods
    class A: pass
    class B(A): pass
"""


def start(v): v.p.summaries[X + "_format_callable"] = lambda p, a, kw: "some text"


def isin(v, m, x, t):
    cs = TYPES[t]
    if cs is None: return z3.BoolVal(True)
    if isinstance(cs, str): cs = (getattr(m, cs),)
    return z3.Or([bz(md.py_isinstance(v.p, x, c)) for c in cs])


def params(sig):
    """'x: int, *, k: str = 7' -> [(name, type, keyword-only, has default)]"""
    out, ko, depth, cur = [], False, 0, ""
    parts = []
    for ch in sig:
        depth += ch == "["; depth -= ch == "]"
        if ch == "," and not depth: parts.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): parts.append(cur)
    for q in parts:
        q = q.strip()
        if q == "*": ko = True; continue
        n, t = q.split(":", 1)
        d = "=" in t
        out.append((n.strip(), t.split("=")[0].strip(), ko, d))
    return out


def matches(v, m, ps, args, kw):
    """z3 condition, or None when the call does not even bind"""
    pos = [q for q in ps if not q[2]]
    if len(args) > len(pos): return None
    b = {q[0]: x for q, x in zip(pos, args)}
    for k, x in kw.items():
        if k in b or k not in [q[0] for q in ps]: return None
        b[k] = x
    if any(q[0] not in b and not q[3] for q in ps): return None
    return z3.And([z3.BoolVal(True)] + [isin(v, m, b[q[0]], q[1]) for q in ps if q[0] in b])


FAMILIES = [("x: int", "x: str"), ("x: Any", "x: int"), ("x: int", "x: Any"), ("x: bool", "x: int"), ("x: int", "x: bool", "x: float"), ("x: Union[int, str]", "x: str"), ("x: str", "x: Union[int, str]", "x: Optional[str]"),
            ("x: A", "x: B"), ("x: B", "x: A"), ("x: A", "x: int", "x: B", "x: float"),
            ("", "x: int", "x: int, y: str"), ("x: int, y: int", "x: int, y: Any", "x: Any, y: int"), ("x: int, y: str", "y: str, x: int"), ("x: int", "y: int"),
            ("x: int, *, k: str", "x: int"), ("x: int, k: int = 7", "x: int"), ("x: int", "x: Any, k: int = 7"), ("*, k: int", "k: str"), ("x: int, y: int = 1, z: int = 2", "x: str, y: Any")]


def define(fam, deco="generic", name="f"):
    return "".join(f"    @{deco}\n    def {name}({sig}): return ({i}, {' '.join(q[0] + ',' for q in params(sig))})\n" for i, sig in enumerate(fam))


def calls(v, fam):
    """every way of passing up to as many arguments as the widest takes"""
    names = sorted({q[0] for s in fam for q in params(s)})
    n = max(len(params(s)) for s in fam)
    ways = [(k, ks) for k in range(n + 2) for j in range(n + 1 - k) for ks in itertools.combinations(names + ["other"], j)] + [(n + 1, ())]
    k, ks = ways[v.choose(len(ways))]
    return tuple(v.obj(f"a{i}") for i in range(k)), {q: v.obj("kw_" + q) for q in ks}


def check_call(v, m, f, impls, args, kw):
    """impls: [(tag, params)], in order of registration"""
    k, r = v.attempt(lambda: v.call(f, *args, **kw))
    later = z3.BoolVal(False)
    pick = []
    for tag, ps in reversed(impls):
        c = matches(v, m, ps, args, kw)
        if c is None: continue
        pick.append((tag, z3.And(c, z3.Not(later)))); later = z3.Or(later, c)
    v.oblige("a type error exactly when nothing matches", z3.BoolVal(k == "ok") == later)
    if k != "ok": v.exc_is("type error", r, TypeError); return
    tag = v.p.getitem(r, 0)
    for t, c in pick: v.oblige("the latest that matches", z3.Implies(c, z3.BoolVal(t == tag)))
    ps = dict(impls)[tag]
    pos = [q for q in ps if not q[2]]
    for i, q in enumerate(ps):
        want = args[pos.index(q)] if q in pos and pos.index(q) < len(args) else kw.get(q[0])
        if want is not None: v.same("called with the same arguments", v.p.getitem(r, i + 1), want)
    v.oblige("nothing else", z3.BoolVal(md.py_len(v.p, r) == len(ps) + 1))


@contract(X + "generic", name=X + "generic (families)", variants=FAMILIES)
def _(v, fam):
    start(v)
    m = v.user(HEAD + define(fam))
    args, kw = calls(v, fam)
    check_call(v, m, m.f, [(i, params(s)) for i, s in enumerate(fam)], args, kw)


@contract(X + "augment", variants=[f for f in FAMILIES if len(f) > 1][:8])
def _(v, fam):
    start(v)
    m = v.user(HEAD + define(fam[:-1]) + f"    @augment(f)\n    def g({fam[-1]}): return ({len(fam) - 1}, {' '.join(q[0] + ',' for q in params(fam[-1]))})\n    def plain(x: int): return x\n")
    m.g
    args, kw = calls(v, fam)
    check_call(v, m, m.f, [(i, params(s)) for i, s in enumerate(fam)], args, kw)
    v.must_raise("what is not generic", TypeError, lambda: v.call(X + "augment", m.plain))


@contract(X + "typed", variants=[f[0] for f in FAMILIES if len(f) > 1 and f[0]])
def _(v, sig):
    start(v)
    m = v.user(HEAD + define((sig,), "typed") + "    def g(x: int): return x\n    def again(): \n        return augment(f)(g)\n")
    args, kw = calls(v, (sig,))
    check_call(v, m, m.f, [(0, params(sig))], args, kw)
    v.must_raise("no more implementations", TypeError, lambda: v.call(m.again))
    check_call(v, m, m.f, [(0, params(sig))], args, kw)


@contract(X + "generic", name=X + "generic (missing annotations)", variants=["x", "x: int, y", "x, y: int", "x: int, *, k"])
def _(v, sig):
    start(v)
    m = v.user(HEAD + f"    def f({sig}): return 1\n    def make(): return generic(f)\n")
    v.must_raise("type error", TypeError, lambda: v.call(m.make))


@contract(X + "generic", name=X + "generic (two functions)")
def _(v):
    start(v)
    m = v.user(HEAD + define(("x: int",)) + define(("x: Any",), name="g"))
    x = v.obj("x")
    check_call(v, m, m.f, [(0, params("x: int"))], (x,), {})
    check_call(v, m, m.g, [(0, params("x: Any"))], (x,), {})


@contract(X + "generic", name=X + "generic (methods)", variants=["method", "inherited", "overridden"])
def _(v, var):
    """implementations of a subclass are tried before those it inherits"""
    start(v)
    m = v.user(HEAD + """
    class P:
        @generic
        def m(self, x: int): return ("P int", x)
        @generic
        def m(self, x: str): return ("P str", x)
    class Q(P):
        @generic
        def m(self, x: float): return ("Q float", x)
        @generic
        def m(self, x: bool): return ("Q bool", x)
    class R(Q):
        pass
    """)
    x = v.obj("x")
    base = [("P int", params("x: int")), ("P str", params("x: str"))]
    own = [("Q float", params("x: float")), ("Q bool", params("x: bool"))]
    o = v.call({"method": m.P, "inherited": m.R, "overridden": m.Q}[var])
    impls = base if var == "method" else base + own
    k, r = v.attempt(lambda: v.method(o, "m", x))
    later, pick = z3.BoolVal(False), []
    for tag, ps in reversed(impls):
        c = isin(v, m, x, ps[0][1]); pick.append((tag, z3.And(c, z3.Not(later)))); later = z3.Or(later, c)
    v.oblige("a type error exactly when nothing matches", z3.BoolVal(k == "ok") == later)
    if k != "ok": v.exc_is("type error", r, TypeError); return
    for t, c in pick: v.oblige("the subclass's first, then the latest that matches", z3.Implies(c, z3.BoolVal(t == v.p.getitem(r, 0))))
    v.same("the argument", v.p.getitem(r, 1), x)

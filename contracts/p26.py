"""P26: mathematical sequences."""
import ast
from spec import *
from lib import *
X = "unpythonic.mathseq:"
TRUSTED = ["itertools.repeat, takewhile, zip; integer arithmetic (mathematical integers, as in Python)"]
ASSUMPTIONS = ["terms are integers of any size (floats and symbolic expressions are outside the verifier)",
               "finite products: both sequences up to three terms, any integers"]


def infinite(v, name, it, f):
    v.hint(lambda i: mki(f(i)))
    v.stream(name, py_iter(v.p, it), SSeq(None, lambda i: mki(f(i)), inf=True))


@contract(X + "s", name=X + "s (constant, arithmetic)", variants=["1", "2", "3"])
def _(v, k):
    a, d = v.int("a"), v.int("d")
    k = int(k)
    if k == 1: v.assume(d.t == 0)
    spec = [mki(a.t + j * d.t) for j in range(k)]
    r = v.total("call", lambda: v.call(X + "s", *spec, Ellipsis))
    infinite(v, "the progression the terms determine", r, lambda i: a.t + i * d.t)


@contract(X + "s", name=X + "s (cyclic)", variants=[(i, r) for i in (0, 1, 2) for r in (1, 2, 3)])
def _(v, var):
    i, r = var
    ini, rep = [v.obj(f"i{j}") for j in range(i)], [v.obj(f"r{j}") for j in range(r)]
    it = py_iter(v.p, v.total("call", lambda: v.call(X + "s", *ini, ListObj(CSeq(tuple(rep))), Ellipsis)))
    for j in range(i + 3 * r + 1):
        k, x = v.next(it)
        v.oblige("goes on", z3.BoolVal(k == "item"))
        if k == "item": v.same("the initial terms, then the repeating ones again and again", x, ini[j] if j < i else rep[(j - i) % r])
    v.must_raise("nothing to repeat", SyntaxError, lambda: v.call(X + "s", *ini, ListObj(CSeq(())), Ellipsis))
    v.must_raise("no dots", SyntaxError, lambda: v.call(X + "s", *ini, ListObj(CSeq(tuple(rep)))))


@contract(X + "s", name=X + "s (just the terms)", variants=[0, 1, 2, 3])
def _(v, n):
    if n == 0: v.must_raise("only dots", SyntaxError, lambda: v.call(X + "s", Ellipsis)); return
    xs = [v.int(f"x{j}") for j in range(n)]
    v.stream("the terms", py_iter(v.p, v.total("call", lambda: v.call(X + "s", *xs))), CSeq(tuple(xs)))
    v.must_raise("dots out of place", SyntaxError, lambda: v.call(X + "s", Ellipsis, *xs)) if n == 1 else None
    v.must_raise("the length of a constant sequence", SyntaxError, lambda: v.call(X + "s", xs[0], Ellipsis, xs[0]))


@contract(X + "fibonacci")
def _(v):
    F = z3.Function("F", I, I)
    v.assume(z3.And(F(0) == 1, F(1) == 1)); v.c.recdef(lambda i: z3.Implies(i >= 0, F(i + 2) == F(i) + F(i + 1)))
    v.hint(lambda i: mki(F(i + 1)))
    infinite(v, "1, 1, then each the sum of the two before", v.total("call", lambda: v.call(X + "fibonacci")), F)


@contract(X + "triangular")
def _(v):
    T = z3.Function("T", I, I)
    v.assume(T(0) == 1); v.c.recdef(lambda i: z3.Implies(i >= 0, T(i + 1) == T(i) + i + 2))
    infinite(v, "1, 1 + 2, 1 + 2 + 3, ..", v.total("call", lambda: v.call(X + "triangular")), T)


BIN = {"add": (ast.Add, "sadd", lambda a, b: a + b), "sub": (ast.Sub, "ssub", lambda a, b: a - b), "mul": (ast.Mult, "smul", lambda a, b: a * b)}
CMP = {"lt": (ast.Lt, lambda a, b: a < b), "le": (ast.LtE, lambda a, b: a <= b), "eq": (ast.Eq, lambda a, b: a == b), "ne": (ast.NotEq, lambda a, b: a != b), "ge": (ast.GtE, lambda a, b: a >= b), "gt": (ast.Gt, lambda a, b: a > b)}
SIDES = ("both", "left", "right")


def operands(v, side, kind="list"):
    """-> (left value, right value, left term(i), right term(i), number of terms)"""
    x, y = v.source("x", kind, "int"), v.source("y", "iterator", "int")
    a, b = v.int("a"), v.int("b")
    if side == "both": return x, y, (lambda i: iz(x.at(i))), (lambda i: iz(y.at(i))), z3.If(x.n < y.n, x.n, y.n)
    if side == "left": return x, b, (lambda i: iz(x.at(i))), (lambda i: b.t), x.n
    return a, x, (lambda i: a.t), (lambda i: iz(x.at(i))), x.n


val = lambda q: q.value if hasattr(q, "value") else q


@contract(X + "imathify", name=X + "termwise arithmetic", variants=[(o, s, h) for o in BIN for s in SIDES for h in ("function", "operator")])
def _(v, var):
    o, side, how = var
    node, fname, f = BIN[o]
    v.c.mins = True
    l, r, fl, fr, n = operands(v, side)
    l, r = val(l), val(r)
    if how == "function": z = v.total("call", lambda: v.call(X + fname, l, r))
    else:
        if side == "right": r = v.call(X + "imathify", r)
        else: l = v.call(X + "imathify", l)
        z = v.total("operator", lambda: v.p.binop(node(), l, r))
    v.stream("the operation on corresponding terms, to the end of the shorter", py_iter(v.p, z), SSeq(n, lambda i: mki(f(fl(i), fr(i)))))


@contract(X + "imathify", name=X + "termwise comparison", variants=[(o, s) for o in CMP for s in ("both", "left")])
def _(v, var):
    o, side = var
    node, f = CMP[o]
    v.c.mins = True
    l, r, fl, fr, n = operands(v, side)
    z = v.total("method", lambda: v.method(v.call(X + "imathify", val(l)), f"__{o}__", val(r)))
    v.stream("the comparison of corresponding terms", py_iter(v.p, z), SSeq(n, lambda i: mkb(f(fl(i), fr(i)))))


@contract(X + "imathify", name=X + "termwise unary", variants=["neg", "pos", "abs"])
def _(v, o):
    x = v.source("x", "iterable", "int")
    z = v.total("method", lambda: v.method(v.call(X + "imathify", x.value), f"__{o}__"))
    f = {"neg": lambda a: -a, "pos": lambda a: a, "abs": lambda a: z3.If(a < 0, -a, a)}[o]
    v.stream("the operation on each term", py_iter(v.p, z), SSeq(x.n, lambda i: mki(f(iz(x.at(i))))))


@contract(X + "cauchyprod", variants=[(m, n, q) for m in (0, 1, 2, 3) for n in (0, 1, 2, 3) for q in ("any", "all")])
def _(v, var):
    m, n, q = var
    v.c.rounds = 20
    a, b = [v.int(f"a{i}") for i in range(m)], [v.int(f"b{i}") for i in range(n)]
    it = py_iter(v.p, v.total("call", lambda: v.call(X + "cauchyprod", ListObj(CSeq(tuple(a))), tuple(b), require=q)))
    N = min(m, n) if q == "all" else m + n - 1 if m and n else 0
    for k in range(N):
        st, x = v.next(it)
        v.oblige("as many terms", z3.BoolVal(st == "item"))
        if st == "item": v.same("the sum of the products along the diagonal", x, mki(z3.Sum([a[i].t * b[k - i].t for i in range(m) if 0 <= k - i < n] + [z3.IntVal(0)])))
    v.oblige("the end", z3.BoolVal(v.next(it)[0] == "end"))


OPS = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "floordiv": ast.FloorDiv, "truediv": ast.Div, "mod": ast.Mod, "pow": ast.Pow, "and": ast.BitAnd, "or": ast.BitOr, "xor": ast.BitXor, "lshift": ast.LShift, "rshift": ast.RShift}
FN = {"and": "sand", "or": "sor", "xor": "sxor", "lshift": "slshift", "rshift": "srshift", "truediv": "struediv", "floordiv": "sfloordiv", "mod": "smod", "pow": "spow", "add": "sadd", "sub": "ssub", "mul": "smul"}


@contract(X + "imathify", name=X + "termwise operators (any operands)", variants=[(o, s, h) for o in OPS for s in SIDES for h in ("function", "operator")])
def _(v, var):
    """terms are objects of a class of their own, that say which operation was done on which operands in which order"""
    o, side, how = var
    v.c.rounds = 10
    m = v.user("class T:\n    def __init__(self, x): self.x = x\n" + "".join(f"    def __{k}__(self, other): return ('{k}', self, other) if isinstance(other, T) else NotImplemented\n" for k in OPS))
    xs, ys = [v.call(m.T, v.obj(f"x{i}")) for i in range(3)], [v.call(m.T, v.obj(f"y{i}")) for i in range(2)]
    a = v.call(m.T, v.obj("a"))
    l, r = {"both": (ListObj(CSeq(tuple(xs))), tuple(ys)), "left": (ListObj(CSeq(tuple(xs))), a), "right": (a, tuple(ys))}[side]
    want = {"both": list(zip(xs, ys)), "left": [(x, a) for x in xs], "right": [(a, y) for y in ys]}[side]
    if how == "function": z = v.total("call", lambda: v.call(X + FN[o], l, r))
    else:
        if side == "right": r = v.call(X + "imathify", r)
        else: l = v.call(X + "imathify", l)
        z = v.total("operator", lambda: v.p.binop(OPS[o](), l, r))
    it = py_iter(v.p, z)
    for x, y in want:
        k, t = v.next(it)
        v.oblige("as many terms", z3.BoolVal(k == "item"))
        if k == "item": v.same("this operation on these, in this order", t, (o, x, y))
    v.oblige("the end", z3.BoolVal(v.next(it)[0] == "end"))

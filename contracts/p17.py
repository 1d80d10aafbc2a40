"""P17: linked lists.

A cell is an opaque term with its car and cdr; the class cons is replaced, in the contracts of the functions that
build or walk lists, by its own contract (first one below): a new cell with the given car and cdr, that never changes."""
import itertools
from spec import *
from lib import *
X = "unpythonic.llist:"
TRUSTED = ["itertools.zip_longest, reversed, map, zip (pyvc/models.py)"]
ASSUMPTIONS = ["lists of any length whose items are not themselves cells; trees: every shape up to four cells, any leaves",
               "list walkers: finite lists (cells are made before what refers to them)"]
CAR, CDR, CONS = z3.Function("car", U, U), z3.Function("cdr", U, U), z3.Function("cons", U, U, U)


class Cells:
    def __init__(self, v):
        self.v, self.c = v, v.c
        self.nil, self.cls = v.get(X + "nil"), v.get(X + "cons")
        v.c.opaque_any = True
        self.isc = lambda x: bz(md.py_isinstance(v.p, SU(x), self.cls))
        self.isc0 = z3.Function("isinstance_cons", U, B)
        v.c.on_getattr = self.getattr
        v.c.on_class = lambda p, x: self.cls if v.c.branch(self.isc0(x.t)) else None
        self.NIL = toU(self.nil)
        v.assume(z3.Not(self.isc0(self.NIL)))
        v.p.summaries[X + "cons"] = self.make
    def getattr(self, p, o, k):
        if k not in ("car", "cdr"): raise Unsupported(f"attribute {k} of a cell")
        if not self.c.branch(self.isc0(o.t)): md.throw(AttributeError, k)
        return SU((CAR if k == "car" else CDR)(o.t))
    def make(self, p, a, kw):
        assert len(a) == 2 and not kw
        t = CONS(toU(a[0]), toU(a[1]))
        self.facts(t, toU(a[0]), toU(a[1]))
        return SU(t)
    def facts(self, t, a, d):
        self.c.solver.add(self.isc0(t), t != self.NIL, CAR(t) == a, CDR(t) == d)
    def chain(self, name, n, item, last=None):
        """cells name(0), .., name(n-1), then last (nil)"""
        L = z3.Function(name, I, U)
        last = self.NIL if last is None else last
        self.c.recdef(lambda i: z3.And(z3.Implies(z3.And(i >= 0, i < n), z3.And(L(i) == CONS(item(i), L(i + 1)), CAR(L(i)) == item(i), CDR(L(i)) == L(i + 1), self.isc0(L(i)), L(i) != self.NIL)), z3.Implies(i == n, L(i) == last)))
        self.c.index(z3.IntVal(0)); self.c.index(n)
        self.v.bound(n)
        self.v.hint(lambda i: SU(L(i)))
        return L


@contract(X + "cons", name=X + "cons (a cell)")
def _(v):
    """holds what it was given, for good"""
    a, d = v.obj("a"), v.obj("d")
    x = v.total("cons", lambda: v.call(X + "cons", a, d))
    name = ("car", "cdr", "_immutable", "other")[v.choose(4)]
    if v.choose(2): v.must_raise("assignment", TypeError, lambda: v.p.setattr(x, name, v.obj("new")))
    else: v.must_raise("deletion", TypeError, lambda: v.method(x, "__delattr__", name))
    v.same("car", v.p.getattr(x, "car"), a); v.same("cdr", v.p.getattr(x, "cdr"), d)
    v.same("car function", v.call(X + "car", x), a); v.same("cdr function", v.call(X + "cdr", x), d)
    v.must_raise("car of something else", TypeError, lambda: v.call(X + "car", v.get(X + "nil")))
    v.must_raise("cdr of something else", TypeError, lambda: v.call(X + "cdr", 42))


ACC = ["c" + "".join(q) + "r" for n in (1, 2, 3, 4) for q in itertools.product("ad", repeat=n)]


@contract(X + "caddr", name=X + "car .. cddddr", variants=ACC)
def _(v, name):
    w = Cells(v)
    x = v.obj("x")
    t, ok = x.t, []
    for ch in reversed(name[1:-1]): ok.append(w.isc0(t)); t = (CAR if ch == "a" else CDR)(t)
    k, r = v.attempt(lambda: v.call(X + name, x))
    v.oblige("a type error exactly when some step is not a cell", z3.BoolVal(k == "ok") == z3.And(ok))
    if k == "ok": v.same("the part named", r, SU(t))
    else: v.exc_is("type error", r, TypeError)


@contract(X + "lreverse", variants=["iterator", "list", "iterable"])
def _(v, kind):
    w = Cells(v)
    s = v.source("s", kind)
    L = w.chain("L", s.n, lambda i: toU(s.at(s.n - 1 - i)))
    R = z3.Function("R", I, U)      # as built: R(i) is the list of the first i items, reversed
    v.c.recdef(lambda i: z3.And(R(0) == w.NIL, z3.Implies(z3.And(i >= 0, i < s.n), R(i + 1) == CONS(toU(s.at(i)), R(i)))))
    v.hint(lambda i: SU(R(i)))
    r = v.total("call", lambda: v.call(X + "lreverse", s.value))
    v.c.index(s.n)
    v.same("the items, last first", r, SU(R(s.n)))


@contract(X + "llist", variants=["iterator", "list", "tuple", "iterable"])
def _(v, kind):
    w = Cells(v)
    s = v.source("s", kind)
    R = z3.Function("R", I, U)      # R(i) is the list of the last i items
    v.c.recdef(lambda i: z3.And(R(0) == w.NIL, z3.Implies(z3.And(i >= 0, i < s.n), R(i + 1) == CONS(toU(s.at(s.n - 1 - i)), R(i)))))
    v.hint(lambda i: SU(R(i))); v.bound(s.n)
    r = v.total("call", lambda: v.call(X + "llist", s.value))
    v.c.index(s.n)
    v.same("the items in order", r, SU(R(s.n)))


def walker(v, it):
    """the generator an iterator over cells passes the items of (see the contract of ConsIterator)"""
    if isinstance(it, InstObj) and "walker" in it.cells: return it.get("walker")
    if isinstance(it, InstObj): raise Unsupported("another kind of iterator")
    return it


@contract(X + "ConsIterator", name=X + "ConsIterator (passes the walker's items on)")
def _(v):
    w = Cells(v)
    h, a, b = SU(CONS(v.obj("x").t, v.obj("y").t)), v.obj("a"), v.obj("b")
    w.facts(h.t, v.obj("x").t, v.obj("y").t)
    K = v.user("""
    from unpythonic.llist import ConsIterator
    class K(ConsIterator):
        def __init__(self, cell, walk): super().__init__(cell, walk)
    """).K
    got = []
    def walk(p, args, kw): got.append(args); return md.py_iter(p, (a, b))
    it = v.total("iterator", lambda: v.call(K, h, Fn(walk, "walk")))
    v.oblige("the walker is given the cell", z3.BoolVal(len(got) == 1 and len(got[0]) == 1)); v.same("the cell", got[0][0], h)
    v.same("its own iterator", v.p.call(v.get("builtins:iter") if False else Fn(lambda p, q, kw: md.py_iter(p, q[0]), "iter"), [it]), it)
    v.same("first", v.total("next", lambda: v.method(it, "__next__")), a); v.same("second", v.total("next", lambda: v.method(it, "__next__")), b)
    v.must_raise("end", StopIteration, lambda: v.method(it, "__next__"))
    x = (v.get(X + "nil"), 42, None)[v.choose(3)]
    v.must_raise("something that is not a cell", TypeError, lambda: v.call(K, x, Fn(walk, "walk")))


@contract(X + "LinkedListIterator", name=X + "walking a list", variants=[(f, e) for f in ("LinkedListIterator", "LinkedListOrCellIterator", "TailIterator", "iter") for e in ("proper",)])
def _(v, var):
    how, end = var
    w = Cells(v)
    n, f = v.int("n"), z3.Function("item", I, U)
    v.assume(n.t >= 1)
    last = w.NIL if end == "proper" else v.obj("last").t
    if end != "proper": v.assume(z3.And(last != w.NIL, z3.Not(w.isc0(last))))
    L = w.chain("L", n.t, f, last)
    v.c.recdef(lambda i: z3.Implies(z3.And(i >= 0, i < n.t), z3.Not(w.isc0(f(i)))))
    v.hint(lambda i: SU(f(i)))
    R = z3.Function("R", I, U)
    if how == "reversed":
        v.c.recdef(lambda i: z3.And(R(0) == w.NIL, z3.Implies(z3.And(i >= 0, i < n.t), z3.And(R(i + 1) == CONS(f(i), R(i)), CAR(R(i + 1)) == f(i), CDR(R(i + 1)) == R(i), w.isc0(R(i + 1)), R(i + 1) != w.NIL))))
        v.hint(lambda i: SU(R(i)))
    head = SU(L(0))
    th = {"iter": lambda: md.py_iter(v.p, head), "reversed": lambda: md.py_reversed(v.p, head)}.get(how, lambda: v.call(X + how, head))
    if how == "reversed" and end == "improper": v.must_raise("not a list", TypeError, th); return
    it = v.total("iterator", th)
    it = walker(v, it)
    item = (lambda i: SU(L(i))) if how == "TailIterator" else (lambda i: SU(f(n.t - 1 - i))) if how == "reversed" else (lambda i: SU(f(i)))
    N = n.t
    if end == "proper": v.stream("the items, in order", it, SSeq(N, item))
    elif how in ("LinkedListOrCellIterator", "iter") and v.case(N == 1): v.stream("a single cell: its two halves", it, SSeq(z3.IntVal(2), lambda i: SU(z3.If(i == 0, f(z3.IntVal(0)), last))))
    else: v.stream("the items, then an error", it, SSeq(N, item), ends_with=TypeError)


@contract(X + "ll", name=X + "ll, lzip", variants=["ll", "lzip1", "lzip2", "lzip_seq"])
def _(v, how):
    """given lists are walked by the contracts above: front to back, or back to front"""
    w = Cells(v)
    def walk(back):
        def go(p, a, kw):
            for L, n, item in known:
                if z3.eq(z3.simplify(a[0].t), z3.simplify(L(0))): return md.SrcIter(SSeq(n, (lambda i: SU(item(n - 1 - i))) if back else (lambda i: SU(item(i)))))
            raise Unsupported("a list that is not one of the given ones")
        return go
    known = []
    def given(name):
        """a list (nil when it has no items)"""
        n, f = v.int("n" + name).t, z3.Function("item" + name, I, U)
        v.assume(n >= 0)
        L = w.chain(name, n, f); known.append((L, n, f))
        v.note_source(SSeq(n, lambda i: SU(f(i))))
        return (SU(L(0)), n, f)
    v.p.summaries[X + "cons.__iter__"] = walk(False); v.p.summaries[X + "cons.__reversed__"] = walk(True)
    def built(name, n, item, last):
        """name(i): the list of the last i items, then last"""
        R = z3.Function(name, I, U)
        v.c.recdef(lambda i: z3.And(R(0) == last, z3.Implies(z3.And(i >= 0, i < n), R(i + 1) == CONS(item(n - 1 - i), R(i)))))
        v.hint(lambda i: SU(R(i))); v.bound(n); v.c.index(n)
        return R(n)
    if how == "ll":
        s = v.source("s", "tuple")
        want = built("R", s.n, lambda i: toU(s.at(i)), w.NIL)
        v.same("the arguments in order", v.total("call", lambda: v.p.models.call_symargs(v.p, v.get(X + "ll"), s.seq, {})), SU(want)); return
    if how.startswith("lappend"):
        k = int(how[-1])
        gs = [given(f"L{j}") for j in range(k)]
        # what is already nil is given as nil itself
        want = w.NIL
        for j in range(k - 1, -1, -1):
            _, n, f = gs[j]
            want = built(f"R{j}", n, f, want)
        for g in gs: v.assume(g[1] >= 1)
        v.same("the items of all, in order", v.total("call", lambda: v.call(X + "lappend", *[g[0] for g in gs])), SU(want)); return
    if how == "lzip_seq":
        a, b = v.source("a", "iterator"), v.source("b", "list")
        args, n, row = [a.value, b.value], z3.If(a.n < b.n, a.n, b.n), lambda i: [toU(a.at(i)), toU(b.at(i))]
    else:
        gs = [given(f"L{j}") for j in range(int(how[-1]))]
        for g in gs: v.assume(g[1] >= 1)
        args, n, row = [g[0] for g in gs], gs[0][1] if len(gs) == 1 else z3.If(gs[0][1] < gs[1][1], gs[0][1], gs[1][1]), lambda i: [g[2](i) for g in gs]
    v.c.mins = True
    def item(i):
        t = w.NIL
        for x in reversed(row(i)): t = CONS(x, t)
        return t
    v.hint(lambda i: SU(item(i)))
    want = built("R", n, item, w.NIL)
    v.same("a list of the lists of corresponding items", v.total("call", lambda: v.call(X + "lzip", *args)), SU(want))


def trees(n):
    """every shape with n cells: None is a leaf"""
    if n == 0: yield None; return
    for k in range(n):
        for a in trees(k):
            for b in trees(n - 1 - k): yield (a, b)


SHAPES = [t for n in (1, 2, 3, 4) for t in trees(n)]


def grow(v, t, name="t", nils=(), ints=False):
    if t is None:
        if ints and name not in nils: return v.int(name)
        if name in nils: return v.get(X + "nil")
        x = v.obj(name); v.assume(x.t != toU(v.get(X + "nil")))
        return x
    return v.call(X + "cons", grow(v, t[0], name + "a", nils, ints), grow(v, t[1], name + "d", nils, ints))


def paths_of(t, name="t"): return [name] if t is None else paths_of(t[0], name + "a") + paths_of(t[1], name + "d")


@contract(X + "BinaryTreeIterator", name=X + "iterating trees", variants=SHAPES)
def _(v, t):
    ends = paths_of(t)
    nils = [p for p in ends if p.endswith("d")][:2] if v.choose(2) else []
    v.c.rounds = 40
    x = grow(v, t, nils=nils)
    nil = v.get(X + "nil")
    leaf = lambda name: nil if name in nils else v.obj(name)
    def order(t, name, jack):
        out = []
        if t[0] is None: out.append(leaf(name + "a"))
        if t[1] is None and not (jack and name + "d" in nils): out.append(leaf(name + "d"))
        if t[0] is not None: out += order(t[0], name + "a", jack)
        if t[1] is not None: out += order(t[1], name + "d", jack)
        return out
    jack = v.choose(2)
    it = walker(v, v.total("iterator", lambda: v.call(X + ("JackOfAllTradesIterator" if jack else "BinaryTreeIterator"), x)))
    want = order(t, "t", jack)
    for k, y in enumerate(want):
        kind, z = v.attempt(lambda: v.method(it, "__next__"))
        v.oblige("as many leaves", z3.BoolVal(kind == "ok"))
        if kind == "ok": v.same("each cell: its own leaves, then the car's, then the cdr's", z, y)
    v.must_raise("no more leaves", StopIteration, lambda: v.method(it, "__next__"))


PAIRS = [(s, t) for s in SHAPES for t in SHAPES if max(len(paths_of(s)), len(paths_of(t))) <= 4]


@contract(X + "cons", name=X + "cons (equality)", variants=PAIRS)
def _(v, var):
    s, t = var
    v.c.rounds = 40
    px, py = paths_of(s, "x"), paths_of(t, "y")
    nx = (set(), {q for q in px if q.endswith("d")}, {px[-1]})[v.choose(3)]
    ny = (set(), {q for q in py if q.endswith("d")}, {py[-1]})[v.choose(3)]
    x, y = grow(v, s, "x", nx, True), grow(v, t, "y", ny, True)
    k, r = v.attempt(lambda: md.py_eq(v.p, x, y))
    v.oblige("an answer", z3.BoolVal(k == "ok"))
    if k != "ok": return
    if s != t or {q[1:] for q in nx} != {q[1:] for q in ny}: v.oblige("different shapes differ", z3.Not(v.truthy(r))); return
    v.oblige("equal exactly when all leaves are", v.truthy(r) == z3.And([v.int(a).t == v.int(b).t for a, b in zip(px, py) if a not in nx]))


def lst(v, name, n, last=None):
    x = v.get(X + "nil") if last is None else last
    for i in range(n - 1, -1, -1): x = v.call(X + "cons", v.int(f"{name}{i}"), x)
    return x


def cells_of(v, x):
    """items of a built list, by its cells; the end"""
    out, cls = [], v.get(X + "cons")
    while isinstance(x, InstObj) and x.cls is cls: out.append(v.p.getattr(x, "car")); x = v.p.getattr(x, "cdr")
    return out, x


@contract(X + "member", name=X + "lists of up to four cells", variants=[(f, n) for f in ("iterate", "cell or list", "tails", "reversed", "lappend", "member", "lreverse") for n in (1, 2, 3, 4)])
def _(v, var):
    how, n = var
    v.c.rounds = 40
    nil = v.get(X + "nil")
    xs = [v.int(f"x{i}") for i in range(n)]
    improper = v.choose(2) if how in ("iterate", "cell or list", "tails", "reversed", "member") else 0
    x = lst(v, "x", n, v.int("end") if improper else None)
    def islist(name, r, items):
        got, end = cells_of(v, r)
        v.oblige(name + ": a proper list", z3.BoolVal(end is nil)); v.oblige(name + ": length", z3.BoolVal(len(got) == len(items)))
        for a, b in zip(got, items): v.same(name + ": item", a, b)
    if how == "lappend":
        k, m = v.choose(3), v.choose(3)
        y, z = lst(v, "y", k), lst(v, "z", m)
        js = v.choose(3)
        ys, zs = [v.int(f"y{i}") for i in range(k)], [v.int(f"z{i}") for i in range(m)]
        args, items = ((x, y, z), xs + ys + zs) if js == 0 else ((y, x), ys + xs) if js == 1 else ((x,), xs)
        islist("the items of all, in order", v.total("call", lambda: v.call(X + "lappend", *args)), items); return
    if how == "lreverse": islist("back to front", v.total("call", lambda: v.call(X + "lreverse", x)), xs[::-1]); return
    if how == "member":
        y = v.int("y")
        k, r = v.attempt(lambda: v.call(X + "member", y, x))
        at = [z3.And([y.t != xs[j].t for j in range(i)] + [y.t == xs[i].t]) for i in range(n)]
        if k != "ok": v.exc_is("an error", r, TypeError); v.oblige("only past the end of what is no list", z3.And([z3.BoolVal(bool(improper)), z3.Not(z3.Or(at))])); return
        if isinstance(r, InstObj):
            c = x
            for i in range(n):
                if c is r: v.oblige("the first cell with the item", at[i]); return
                c = v.p.getattr(c, "cdr")
            v.oblige("a cell of the list", z3.BoolVal(False)); return
        v.oblige("false", z3.And(z3.Not(v.truthy(r)), z3.Not(z3.Or(at)), z3.BoolVal(not improper))); return
    if how == "reversed":
        k, it = v.attempt(lambda: md.py_reversed(v.p, x))
        want = xs[::-1]
        if improper and k != "ok": v.exc_is("not a list", it, TypeError); return
        if improper: return
        v.oblige("an iterator", z3.BoolVal(k == "ok"))
    else:
        th = {"iterate": lambda: v.call(X + "LinkedListIterator", x), "cell or list": lambda: md.py_iter(v.p, x), "tails": lambda: v.call(X + "TailIterator", x)}[how]
        it, want = v.total("iterator", th), list(xs)
    if how == "tails":
        want, c = [], x
        for i in range(n): want.append(c); c = v.p.getattr(c, "cdr")
    if improper and n == 1 and how == "cell or list": want.append(v.int("end")); improper = 0
    for y in want:
        k, z = v.attempt(lambda: v.method(it, "__next__"))
        v.oblige("an item", z3.BoolVal(k == "ok"))
        if k == "ok": v.same("the items, in order", z, y)
    v.must_raise("then the end, or an error for what is no list", TypeError if improper else StopIteration, lambda: v.method(it, "__next__"))

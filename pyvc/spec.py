"""Contract language: what a contract harness may say about the code under verification."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import ast
from core import *
from ops import *
import interp as ip
from interp import *
import models as md
from models import *

CONTRACTS = []


class Contract:
    def __init__(self, name, f, target, variants, tier):
        self.name, self.f, self.target, self.variants, self.tier = name, f, target, variants, tier


def contract(target, name=None, variants=(None,), tier="quick"):
    """target: 'unpythonic.it:butlastn' or a list (first: the function the contract is for; rest: helpers inlined)."""
    def deco(f):
        CONTRACTS.append(Contract(name or (target if isinstance(target, str) else target[0]), f, target, variants, tier))
        return f
    return deco


class Src:
    """an input of the code under verification"""
    def __init__(self, v, name, kind, elem="U"):
        c = v.c
        self.name, self.kind = name, kind
        self.inf = kind == "infinite"
        if elem == "U":
            g = z3.Function(name, I, U); at = lambda i: SU(g(i))
        elif elem == "int":
            g = z3.Function(name, I, I); at = lambda i: mki(g(i))
        else:
            at = elem
        self.at = lambda i: at(i if z3.is_expr(i) else iz(i))
        if self.inf:
            self.n = None
            self.seq = SSeq(None, at, inf=True)
        else:
            self.n = z3.Int("len_" + name)
            c.assume(self.n >= 0)
            self.seq = SSeq(self.n, at)
        if kind in ("iterator", "infinite"):
            self.value = SrcIter(self.seq)
        elif kind == "iterable":
            self.value = UserIter(self.seq)
        elif kind == "list":
            self.value = ListObj(self.seq); v.note_source(self.seq)
        elif kind == "tuple":
            self.value = STuple(self.seq); v.note_source(self.seq)
        else: raise ValueError(kind)
    @property
    def pos(self):
        """items taken from the input so far"""
        if isinstance(self.value, SrcIter): return iz(self.value.get("pos"))
        if isinstance(self.value, UserIter):
            return iz(self.value.made[-1].get("pos")) if self.value.made else z3.IntVal(0)
        return None


class V:
    def __init__(self, c, label):
        self.c, self.label = c, label
        self.p = Interp(c)
        c.v = self
        c.interp = self.p
        self.p.summaries = dict(DEFAULT_SUMMARIES)

    # ---- symbols
    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if lo is not None: self.c.assume(t >= lo)
        if hi is not None: self.c.assume(t <= hi)
        self.c.bounds.append(t)
        return SInt(t)
    def obj(self, name): return SU(z3.Const(name, U))
    def public(self, x, *modules):
        """x is none of the private marker objects (names starting with _) of the modules"""
        for m in modules:
            mod = self.p.module(m)
            for k, sts in mod.binders.items():
                if k.startswith("_") and not k.startswith("__") and any(isinstance(getattr(st, "value", None), ast.Call) and getattr(st.value.func, "id", None) in ("object", "sym", "gensym") for st in sts):
                    self.c.assume(toU(x) != toU(self.p.get_global(mod, k)))
        return x
    def bool(self, name): return SBool(z3.Bool(name))
    def source(self, name, kind="iterator", elem="U"): return Src(self, name, kind, elem)
    def note_source(self, seq):
        self.c.sources.append((lambda i: sat(seq, i), None))
        if not seq.inf: self.c.bounds.append(seq.n)
    def bound(self, t): self.c.bounds.append(iz(t))
    def hint(self, f): self.c.hints.append(f)
    def fn(self, name, **kw): return SFun(name, **kw)
    def assume(self, b): self.c.assume(b)
    def case(self, b): return self.c.branch(b)
    def choose(self, n): return self.c.choose(n)

    # ---- code under verification
    def get(self, q):
        m, n = q.split(":")
        parts = n.split(".")
        o = self.p.get_global(self.p.module(m), parts[0])
        for k in parts[1:]: o = self.p.getattr(o, k)
        return o
    def user(self, src, **names):
        """a user's module with the given text, which can mention the given values; gives access to its globals"""
        import hashlib, textwrap, interp
        k = 0
        while (mod := f"user{k}_" + hashlib.md5(src.encode()).hexdigest()) in self.p.modules: k += 1
        interp.USER[mod] = textwrap.dedent(src)
        m = self.p.module(mod)
        for n, x in names.items(): m.set(n, x)
        class G:
            def __getattr__(g, n): return self.p.get_global(m, n)
        return G()
    def call(self, f, *args, **kw):
        if isinstance(f, str): f = self.get(f)
        return self.p.call(f, list(args), kw)
    def attempt(self, th):
        try: return ("ok", th())
        except PyRaise as e: return ("raise", e.exc)
    def method(self, o, name, *args, **kw):
        return self.p.call(self.p.getattr(o, name), list(args), kw)

    # ---- obligations
    def oblige(self, name, goal): self.c.oblige(f"{self.label}/{name}", goal)
    def same(self, name, a, b):
        if isinstance(a, Seq) or isinstance(b, Seq): self.oblige(name, same_seq(a, b))
        elif isinstance(a, (tuple, STuple)) and isinstance(b, (tuple, STuple)): self.oblige(name, same(a, b))
        else: self.oblige(name, same(a, b))
    def aux(self, name, goal): self.c.aux(f"{self.label}/{name}", goal)
    def canon(self, name, a, b):
        """the object graphs reachable from a and b are the same up to renaming of objects (induction over histories:
        whatever happened before, the state is one that construction alone reaches)"""
        self.aux(name, iso(a, b))
    def thread(self, tid): self.c.tid = tid
    def inst(self, _clsname="Thing", _bases=(), **attrs):
        """an object of a user's class"""
        cls = ClassObj(_clsname, list(_bases) or [object], {}, None)
        o = InstObj(cls)
        o.cells.update(attrs)
        return o
    def eq(self, a, b): return bz(md.py_bool(self.p, md.py_eq(self.p, a, b)))
    def contains(self, o, x): return md.py_contains(self.p, o, x)
    def truthy(self, x): return bz(md.py_bool(self.p, x))
    def exc_is(self, name, exc, cls):
        self.oblige(name, bz(md.py_isinstance(self.p, exc, cls)))
    def must_raise(self, name, cls, th):
        k, v = self.attempt(th)
        if k == "ok": self.oblige(name + "/raises " + getattr(cls, "__name__", str(cls)), False)
        else: self.exc_is(name + "/raises " + getattr(cls, "__name__", str(cls)), v, cls)
    def total(self, name, th):
        """no exception"""
        k, v = self.attempt(th)
        if k == "raise": self.oblige(f"{name}/no exception ({exc_name(v)})", False)
        return v
    def items(self, x):
        """everything an iterable yields, as a sequence"""
        return to_seq(self.p, x)
    def next(self, it):
        try: return ("item", py_next(self.p, it))
        except Stop as s: return ("end", s.value)

    def stream(self, name, it, spec, at_yield=None, at_end=None, prefix_only=False, ends_with=None):
        """it yields exactly the items of spec (a Seq), one by one.  at_yield(k): obligations right after
        the k-th item (k z3 Int) was produced, at_end(k) right after the end was signalled."""
        p, c = self.p, self.c
        it = self.total(name + "/iter", lambda: py_iter(p, it))
        g = HObj(k=0)
        inf = getattr(spec, "inf", False)
        if not inf: c.bounds.append(iz(slen(spec)))
        if isinstance(spec, SSeq): c.hints.append(spec.f)
        def body(x):
            k = iz(g.get("k"))
            c.index(k)
            if not inf: self.oblige(name + "/no extra item", k < iz(slen(spec)))
            self.same_val(name + "/item", x, sat(spec, k))
            if at_yield is not None: at_yield(k)
            if inf: c.x.cover(c, "end")
            g.set("k", mki(k + 1))
            return None
            yield
        try:
            p.run_plain(p.drive(it, body, StreamNode, None))
        except PyRaise as e:
            if ends_with is None: self.oblige(f"{name}/no exception ({exc_name(e.exc)})", False)
            else:
                self.exc_is(name + "/the exception at the end", e.exc, ends_with)
                self.oblige(name + "/all items before it", iz(g.get("k")) == iz(slen(spec)))
                return
        if ends_with is not None: self.oblige(name + "/ends with an exception", False)
        if inf: self.oblige(name + "/never ends", False)
        else: self.oblige(name + "/all items", iz(g.get("k")) == iz(slen(spec)))
        if at_end is not None: at_end(iz(g.get("k")))
    def same_val(self, name, x, want):
        if callable(want) and not isinstance(want, HObj) and isinstance(want, Pred): want.check(self, name, x)
        else: self.same(name, x, want)


def iso(a, b, seen=None):
    seen = {} if seen is None else seen
    if isinstance(a, HObj) and isinstance(b, HObj):
        if a is b: return z3.BoolVal(True)
        if a.uid in seen: return z3.BoolVal(seen[a.uid] == b.uid)
        if type(a) is not type(b) or getattr(a, "cls", None) is not getattr(b, "cls", None): return z3.BoolVal(False)
        seen[a.uid] = b.uid
        if isinstance(a, (GenObj, FuncObj)): return z3.BoolVal(False)
        if set(a.cells) != set(b.cells): return z3.BoolVal(False)
        if getattr(a, "base", None) is not getattr(b, "base", None): return z3.BoolVal(False)
        return z3.And([iso(a.cells[k], b.cells[k], seen) for k in a.cells] + [z3.BoolVal(True)])
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return z3.BoolVal(False)
        return z3.And([iso(x, y, seen) for x, y in zip(a, b)] + [z3.BoolVal(True)])
    if isinstance(a, CSeq) and isinstance(b, CSeq):
        return iso(a.items, b.items, seen)
    if isinstance(a, Seq) and isinstance(b, Seq): return same_seq(a, b)
    if isinstance(a, BoundMethod) and isinstance(b, BoundMethod): return z3.And(iso(a.self, b.self, seen), iso(a.fn, b.fn, seen))
    return same(a, b)


class Pred:
    """expected value given by a check instead of a term"""
    def __init__(self, f): self.f = f
    def __call__(self): pass
    def check(self, v, name, x): self.f(v, name, x)


class StreamNode:
    lineno = -2
    col_offset = 0


# the decorator registry only serves the macro layer
DEFAULT_SUMMARIES = {"unpythonic.regutil:register_decorator": lambda p, a, kw: Builtin("register", lambda p, b, k2: b[0])}


def exc_name(e):
    if isinstance(e, InstObj) and os.environ.get("PYVC_DEBUG"): print(e.cls, e.cells.get("args"), file=sys.stderr)
    if isinstance(e, InstObj): return (e.cls.name if isinstance(e.cls, ClassObj) else e.cls.__name__)
    return "?"

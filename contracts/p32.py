"""P32: mapping a function over containers."""
import itertools
from spec import *
from lib import *
C = "unpythonic.collections:"
TRUSTED = ["list, tuple, dict, set and frozenset methods; the collections.abc classes they belong to (pyvc/models.py)"]
ASSUMPTIONS = ["leaves: any integers; the function returns anything",
               "nested containers: every pair of kinds, up to two items at each level; flat lists and tuples: any length"]
G = z3.Function("G", U, U)


def start(v):
    v.call("unpythonic.lazyutil:_init_module"); v.call("unpythonic.funutil:_init_module")
    v.p.summaries["unpythonic.lazyutil:force"] = lambda p, a, kw: a[0]
    calls = []
    def f(p, a, kw):
        if len(a) != 1 or kw: raise Unsupported("function called with something else than one argument")
        calls.append(a[0]); return SU(G(toU(a[0])))
    return Fn(f, "f"), calls


@contract(C + "mogrify", name=C + "mogrify (flat)", variants=["list", "tuple"])
def _(v, kind):
    f, calls = start(v)
    s = v.source("s", kind, "int")
    v.hint(lambda i: SU(G(toU(s.at(i)))))
    r = v.total("call", lambda: v.call(C + "mogrify", f, s.value))
    if kind == "list": v.oblige("in place", z3.BoolVal(r is s.value))
    elif r is s.value: v.oblige("a new container", z3.Or(s.n == 0, z3.BoolVal(False)))
    v.same("length", md.py_len(v.p, r), mki(s.n))
    v.stream("every item mapped, in order", py_iter(v.p, r), SSeq(s.n, lambda i: SU(G(toU(s.at(i))))))
    if kind == "tuple": v.stream("the original unchanged", py_iter(v.p, s.value), SSeq(s.n, lambda i: s.at(i)))


@contract(C + "mogrify", name=C + "mogrify (not a container)", variants=["int", "str", "bytes", "None", "range", "object", "env"])
def _(v, kind):
    f, calls = start(v)
    x = {"int": lambda: v.int("n"), "str": lambda: "abc", "bytes": lambda: b"abc", "None": lambda: None, "range": lambda: range(3), "object": v.inst, "env": lambda: v.call("unpythonic.env:env", a=1)}[kind]()
    r = v.total("call", lambda: v.call(C + "mogrify", f, x))
    v.oblige("one call", z3.BoolVal(len(calls) == 1)); v.same("on the thing itself", calls[0], x); v.same("its result", r, SU(G(toU(x))))


MUT = ("list", "dict", "box", "ThreadLocalBox", "set")
KINDS = ["list", "tuple", "dict", "box", "ThreadLocalBox", "Some", "cons", "Values", "frozendict", "set", "frozenset"]
SIZE = {"box": (1,), "ThreadLocalBox": (1,), "Some": (1,), "cons": (2,), "set": (0, 1), "frozenset": (0, 1)}


def build(v, t):
    if isinstance(t, str): return v.int(t)
    kind, subs = t
    xs = [build(v, s) for s in subs]
    if kind == "list": x = ListObj(CSeq(tuple(xs)))
    elif kind == "tuple": x = tuple(xs)
    elif kind == "dict": x = v.p.call(dict, [], {f"k{i}": y for i, y in enumerate(xs)})
    elif kind == "frozendict": x = v.call(C + "frozendict", **{f"k{i}": y for i, y in enumerate(xs)})
    elif kind in ("box", "ThreadLocalBox", "Some"): x = v.call(C + kind, *xs)
    elif kind == "nil": x = v.get("unpythonic.llist:nil")
    elif kind == "ValuesKw": x = v.call("unpythonic.funutil:Values", **{f"q{i}": y for i, y in enumerate(xs)})
    elif kind == "cons": x = v.call("unpythonic.llist:cons", *xs)
    elif kind == "Values": x = v.call("unpythonic.funutil:Values", *xs[:1], **{f"q{i}": y for i, y in enumerate(xs[1:])})
    elif kind in ("set", "frozenset"): x = v.p.call({"set": set, "frozenset": frozenset}[kind], [ListObj(CSeq(tuple(xs)))], {})
    ALL.append((t, x))
    return x


ALL = []


def kids(v, t, x):
    kind, subs = t
    if kind in ("list", "tuple", "set", "frozenset"): return [v.p.getitem(x, i) for i in range(len(subs))] if kind in ("list", "tuple") else [py_next(v.p, py_iter(v.p, x))] if len(subs) else []
    if kind in ("dict", "frozendict"): return [v.p.getitem(x, f"k{i}") for i in range(len(subs))]
    if kind in ("box", "ThreadLocalBox", "Some"): return [v.method(x, "get")]
    if kind == "cons": return [v.p.getattr(x, "car"), v.p.getattr(x, "cdr")]
    if kind == "nil": return []
    if kind == "ValuesKw": return [v.p.getitem(v.p.getattr(x, "kwrets"), f"q{i}") for i in range(len(subs))]
    if kind == "Values": return ([v.p.getitem(v.p.getattr(x, "rets"), 0)] if subs else []) + [v.p.getitem(v.p.getattr(x, "kwrets"), f"q{i}") for i in range(len(subs[1:]))]


def size(v, t, x):
    if isinstance(x, (SU, SInt)): return 0
    kind = t[0]
    if kind in ("cons",): return 2
    if kind == "nil": return 0
    if kind in ("Values", "ValuesKw"): return md.py_len(v.p, v.p.getattr(x, "rets")) + md.py_len(v.p, v.p.getattr(x, "kwrets"))
    return md.py_len(v.p, x)


def agree(v, t, x, y, leaf):
    """y is x's tree t with its leaves read by leaf; mutables are x's own"""
    if isinstance(t, str): v.same("leaf", y, leaf(t)); return
    kind, subs = t
    v.oblige("the same kind of container", z3.BoolVal(md.py_type(v.p, x) is md.py_type(v.p, y)))
    v.same("as many items", size(v, t, y), len(subs))
    for s, a, b in zip(subs, kids(v, t, x), kids(v, t, y)): agree(v, s, a, b, leaf)


def shapes():
    for k in KINDS:
        for n in SIZE.get(k, (0, 1, 2)): yield (k, tuple(f"x{i}" for i in range(n)))
    for k in KINDS:
        if k in ("set", "frozenset"): continue
        for j in KINDS:
            n = max(SIZE.get(k, (0, 1, 2))); m = max(SIZE.get(j, (0, 1, 2)))
            inner = (j, tuple(f"y{i}" for i in range(m)))
            yield (k, (inner,) + tuple(f"x{i}" for i in range(1, n)))
    for n in (1, 2): yield ("ValuesKw", tuple(f"x{i}" for i in range(n)))
    yield ("ValuesKw", (("list", ("y0", "y1")), "x1"))
    nil = ("nil", ())
    for inner in (nil, ("cons", ("y0", "y1")), ("cons", (("nil", ()), "y1")), ("cons", ("y0", ("nil", ()))), ("cons", (("nil", ()), ("nil", ())))):
        yield ("cons", (inner, "x1")); yield ("cons", ("x0", inner)); yield ("cons", (inner, ("cons", ("z0", ("nil", ())))))


def leaves(t): return [t] if isinstance(t, str) else [y for s in t[1] for y in leaves(s)]


@contract(C + "mogrify", name=C + "mogrify (nested)", variants=list(shapes()))
def _(v, t):
    f, calls = start(v)
    v.c.rounds = 20
    del ALL[:]
    x = build(v, t)
    parts = list(ALL)
    r = v.total("call", lambda: v.call(C + "mogrify", f, x))
    ls = leaves(t)
    v.oblige("one call for each leaf", z3.BoolVal(len(calls) == len(ls)))
    v.oblige("each leaf", z3.And([z3.Or([toU(a) == toU(v.int(b)) for a in calls]) for b in ls]) if ls and calls else z3.BoolVal(not ls))
    agree(v, t, x, r, lambda name: SU(G(toU(v.int(name)))))
    def same_objects(t, x, r, under):
        """mutables are the very objects; containers without anything mutable in them are unchanged"""
        if isinstance(t, str): return
        v.oblige("in place" if t[0] in MUT else "a new container", z3.BoolVal((r is x) == (t[0] in MUT) or not leaves(t) and t[0] not in MUT))
        for s, a, b in zip(t[1], originals(t), kids(v, t, r)): same_objects(s, a, b, under)
    ids = {id(s): y for s, y in parts}
    originals = lambda t: [ids.get(id(s)) for s in t[1]]
    same_objects(t, x, r, False)
    def intact(t):
        if isinstance(t, str) or t[0] in MUT: return
        for s, y in zip(t[1], kids(v, t, ids[id(t)])):
            if isinstance(s, str): v.same("the original keeps its leaves", y, v.int(s))
            else: v.oblige("the original keeps its items", z3.BoolVal(y is ids[id(s)])); intact(s)
    intact(t)

"""P24: run-time type checks decide membership.

The type is a real typing object; the value is symbolic: leaves of unknown class (isinstance is an uninterpreted
relation, with what is known about which classes exclude each other), containers of any length or, nested, up to two items."""
import collections.abc, typing, types
from spec import *
from lib import *
X = "unpythonic.typecheck:"
TRUSTED = ["typing's own objects (Union, List, .., their __args__ and __origin__) are used as they are",
           "isinstance, and list, tuple, dict, set (pyvc/models.py)"]
ASSUMPTIONS = ["lemma by hand: a running conjunction that has turned false stays false",
               "leaves are anything but containers, mappings and callables",
               "nested types: the listed ones, values up to two items per level, every combination of kinds"]
A = collections.abc
NOT_LEAF = (list, tuple, dict, set, frozenset, bytes, bytearray, A.Sequence, A.Mapping, A.MutableSequence, A.Set, A.MappingView, A.Callable)
isin = lambda v, x, cls: bz(md.py_isinstance(v.p, x, cls))


def leaf(v, name):
    x = v.obj(name)
    # a string is a leaf here (typing.Sequence of a string is asked in its own contract)
    v.assume(z3.And([z3.Not(isin(v, x, k)) for k in NOT_LEAF if k is not A.Sequence]))
    return x


def value(v, t, name="x", strings=True):
    if t == "leaf":
        x = leaf(v, name)
        if not strings: v.assume(z3.Not(isin(v, x, A.Sequence)))
        return x
    kind, subs = t[0], t[1:]
    xs = [value(v, s, name + str(i), strings) for i, s in enumerate(subs)]
    if kind == "list": return ListObj(CSeq(tuple(xs)))
    if kind == "tuple": return tuple(xs)
    if kind in ("set", "frozenset"): return v.p.call({"set": set, "frozenset": frozenset}[kind], [ListObj(CSeq(tuple(xs)))], {})
    if kind == "dict":
        d = v.p.call(dict, [], {})
        for i, x in enumerate(xs): v.p.setitem(d, KEYS[i], x)
        return d


KEYS = ("a", 7, "c")
# types, as this file's own terms: the typing object is made from them, and so is the meaning
LIKE = {"List": ("list",), "Sequence": ("list", "tuple"), "MutableSequence": ("list",), "Set": ("set",), "FrozenSet": ("frozenset",), "AbstractSet": ("set", "frozenset"), "MutableSet": ("set",)}
MAPS = ("Dict", "Mapping", "MutableMapping")


def typ(T):
    if T in (int, str, float): return T
    if T == "None": return type(None)
    if T == "Any": return typing.Any
    h, a = T[0], T[1:]
    if h in LIKE: return getattr(typing, h)[typ(a[0])]
    if h in MAPS: return getattr(typing, h)[typ(a[0]), typ(a[1])]
    if h == "Tuple": return typing.Tuple[tuple(typ(x) for x in a)]
    if h == "VarTuple": return typing.Tuple[typ(a[0]), ...]
    if h == "Union": return typing.Union[tuple(typ(x) for x in a)]
    if h == "Optional": return typing.Optional[typ(a[0])]
    if h == "TypeVar": return typing.TypeVar("Q", *[typ(x) for x in a])
    if h == "NewType": return typing.NewType("W", typ(a[0]))


def member(v, T, t, name="x"):
    """the value described by t belongs to T"""
    F, Y = z3.BoolVal(False), z3.BoolVal(True)
    if T == "Any": return Y
    if T == "None": T = type(None)
    if isinstance(T, type): return isin(v, v.obj(name), T) if t == "leaf" else F
    h, a = T[0], T[1:]
    if h in ("Union", "TypeVar"): return z3.Or([member(v, x, t, name) for x in a]) if a else Y
    if h == "Optional": return z3.Or(member(v, a[0], t, name), member(v, "None", t, name))
    if h == "NewType": return member(v, a[0], t, name)
    if t == "leaf": return F
    kind, subs = t[0], t[1:]
    every = lambda E: z3.And([member(v, E, s, name + str(i)) for i, s in enumerate(subs)])
    if h in LIKE: return every(a[0]) if kind in LIKE[h] and subs else F
    if h == "VarTuple": return every(a[0]) if kind == "tuple" and subs else F
    if h == "Tuple": return z3.And([member(v, E, s, name + str(i)) for i, (E, s) in enumerate(zip(a, subs))]) if kind == "tuple" and len(a) == len(subs) else F
    if h in MAPS:
        if kind != "dict" or not subs: return F
        return z3.And(every(a[1]), z3.BoolVal(all(a[0] == "Any" or isinstance(KEYS[i], a[0]) for i in range(len(subs)))))


BASIC = [int, str, float, "Any", "None", ("Union", int, str), ("Union", int, str, float), ("TypeVar", int, str, float), ("Tuple", int, str, int), ("Optional", int), ("TypeVar", int, str), ("TypeVar",), ("NewType", int)]
ONE = [(k, int) for k in LIKE] + [(k, str, int) for k in MAPS] + [("Mapping", "Any", int), ("VarTuple", int), ("Tuple", int), ("Tuple", int, str), ("Tuple", int, int)]
TWO = ([("List", x) for x in (("Union", int, str), ("Optional", int), ("TypeVar", int, str), ("Tuple", int, str), ("List", int), ("Dict", str, int))] +
       [("VarTuple", ("List", int)), ("Tuple", ("List", int), int), ("Tuple", ("Union", int, str), ("VarTuple", int)), ("Dict", str, ("List", int)), ("Mapping", str, ("Tuple", int, int)), ("Sequence", ("Sequence", int)),
        ("Union", ("List", int), str), ("Union", ("Tuple", int, int), ("List", int)), ("Optional", ("Dict", str, int)), ("TypeVar", ("List", int), ("VarTuple", int)), ("NewType", ("List", ("Union", int, str))), ("Set", ("Union", int, str)), ("FrozenSet", ("Optional", int))])
FLAT = ["leaf"] + [(k,) + ("leaf",) * n for k in ("list", "tuple", "dict") for n in (0, 1, 2)] + [(k,) + ("leaf",) * n for k in ("set", "frozenset") for n in (0, 1)]
NEST = [(k, j) for k in ("list", "tuple", "dict") for j in FLAT[1:]] + [("list", ("tuple", "leaf", "leaf"), "leaf"), ("tuple", ("list", "leaf"), "leaf"), ("tuple", "leaf", ("tuple", "leaf", "leaf")), ("dict", ("list", "leaf"), ("list", "leaf"))]


def decide(v, T, shapes):
    t = shapes[v.choose(len(shapes))]
    x = value(v, t, strings="Sequence" not in repr(T))
    k, r = v.attempt(lambda: v.call(X + "isoftype", x, typ(T)))
    v.oblige(f"an answer for a value like {t}", z3.BoolVal(k == "ok"))
    if k == "ok": v.oblige(f"yes exactly when a value like {t} belongs to the type", v.truthy(r) == member(v, T, t))
    def intact(t, x, name):
        if t == "leaf": v.same("the value is not changed", x, v.obj(name)); return
        if t[0] in ("set", "frozenset"): v.same("no items lost", md.py_len(v.p, x), len(t) - 1); return
        v.same("no items lost", md.py_len(v.p, x), len(t) - 1)
        for i, s in enumerate(t[1:]): intact(s, v.p.getitem(x, KEYS[i] if t[0] == "dict" else i), name + str(i))
    intact(t, x, "x")


@contract(X + "isoftype", name=X + "isoftype (types without parts, and one level)", variants=BASIC + ONE)
def _(v, T):
    v.c.rounds = 30
    decide(v, T, FLAT)


@contract(X + "isoftype", name=X + "isoftype (nested types)", variants=TWO)
def _(v, T):
    v.c.rounds = 30
    decide(v, T, FLAT + NEST)


@contract(X + "isoftype", name=X + "isoftype (any length)", variants=[("list", "List"), ("list", "Sequence"), ("list", "MutableSequence"), ("tuple", "VarTuple"), ("tuple", "Sequence"), ("tuple", "List"), ("list", "VarTuple"), ("list", "Tuple2"), ("tuple", "Tuple2"), ("list", "Set")])
def _(v, var):
    kind, h = var
    s = v.source("s", kind)
    T = typing.Tuple[int, str] if h == "Tuple2" else typ((h, int))
    good = z3.Function("good_below", I, B)
    v.assume(good(0)); v.c.recdef(lambda i: z3.Implies(i >= 0, good(i + 1) == z3.And(good(i), isin(v, s.at(i), int))))
    v.c.recdef(lambda i: z3.Implies(z3.And(i >= 0, i <= s.n, z3.Not(good(i))), z3.Not(good(s.n))))   # good only ever turns off (induction)
    v.c.preds.append(good); v.c.index(s.n)
    r = v.total("call", lambda: v.call(X + "isoftype", s.value, T))
    yes = v.truthy(r)
    if h == "Tuple2": v.oblige("a pair of the two", z3.BoolVal(False) == yes if kind != "tuple" else yes == z3.And(s.n == 2, isin(v, s.at(z3.IntVal(0)), int), isin(v, s.at(z3.IntVal(1)), str))); return
    if (h == "VarTuple") != (kind == "tuple") and h != "Sequence" or h == "Set": v.oblige("never", z3.Not(yes)); return
    v.oblige("yes exactly when it is nonempty and every item belongs", yes == z3.And(s.n > 0, good(s.n)))


@contract(X + "isoftype", name=X + "isoftype (callables, strings)")
def _(v):
    f = Fn(lambda p, a, kw: None, "f")
    v.oblige("a function is callable", v.truthy(v.call(X + "isoftype", f, typing.Callable))); v.oblige("with arguments stated", v.truthy(v.call(X + "isoftype", f, typing.Callable[[int], int])))
    n = v.int("n")
    v.oblige("a number is not", z3.Not(v.truthy(v.call(X + "isoftype", n, typing.Callable)))); v.oblige("nor a list", z3.Not(v.truthy(v.call(X + "isoftype", ListObj(CSeq((n,))), typing.Callable[[int], int]))))
    v.oblige("text", v.truthy(v.call(X + "isoftype", "abc", typing.Text))); v.oblige("not text", z3.Not(v.truthy(v.call(X + "isoftype", n, typing.Text))))
    v.oblige("a string is a sequence of strings", v.truthy(v.call(X + "isoftype", "abc", typing.Sequence[str]))); v.oblige("and not of numbers", z3.Not(v.truthy(v.call(X + "isoftype", "abc", typing.Sequence[int]))))

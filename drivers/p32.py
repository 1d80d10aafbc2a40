from base import *
import collections, copy
from unpythonic.collections import mogrify, frozendict, box, Some, ThreadLocalBox, view, roview
from unpythonic.llist import cons, ll, nil
from unpythonic.funutil import Values
from unpythonic.env import env
D = Driver("P32")
P = collections.namedtuple("P", "x y")


class M:
    """A leaf after mapping: M(v) == M(v), not a container."""
    def __init__(self, v): self.v = v
    def __eq__(self, o): return type(o) is M and o.v == self.v
    def __hash__(self): return hash(("M", self.v))
    def __repr__(self): return f"M({self.v!r})"


def gen(r, depth, leaves):
    """-> container with numbered leaves."""
    def leaf():
        x = r.choice([lambda: EqItem(len(leaves)), lambda: "s%d" % len(leaves), lambda: len(leaves) * 1.5, lambda: 1000 + len(leaves)])() if r.random() < .9 else None
        leaves.append(x); return x
    if depth == 0: return leaf()
    k = r.randrange(15); n = r.choice([0, 1, 2, 3]); sub = lambda: gen(r, depth - 1, leaves) if r.random() < .6 else leaf()
    if k in (0, 1): return [sub() for _ in range(n)]
    if k == 2: return tuple(sub() for _ in range(n))
    if k == 3: return {f"k{i}": sub() for i in range(n)}
    if k == 4: return collections.deque(sub() for _ in range(n))
    if k == 5: return {leaf() for _ in range(n)}
    if k == 6: return frozenset(leaf() for _ in range(n))
    if k == 7: return frozendict({f"k{i}": sub() for i in range(n)})
    if k == 8: return box(sub())
    if k == 9: return Some(sub())
    if k == 10: return P(sub(), sub())
    if k == 11: return ll(*[sub() for _ in range(n)])
    if k == 12: return Values(*[sub() for _ in range(r.randint(0, 2))], **{f"q{i}": sub() for i in range(r.randint(0, 2))})
    if k == 13: return collections.OrderedDict((f"k{i}", sub()) for i in range(n))
    return ThreadLocalBox(sub())


MUT = (list, dict, collections.deque, set, box, collections.OrderedDict, ThreadLocalBox)


def shape(x, f):
    """Specification: structural copy with leaves mapped."""
    if isinstance(x, Values): return ("V", tuple(shape(v, f) for v in x.rets), tuple((k, shape(v, f)) for k, v in x.kwrets.items()))
    if isinstance(x, (list, collections.deque)): return (type(x).__name__, tuple(shape(v, f) for v in x))
    if isinstance(x, tuple): return (type(x).__name__, tuple(shape(v, f) for v in x))
    if isinstance(x, (dict, frozendict)): return (type(x).__name__, tuple((k, shape(v, f)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)): return (type(x).__name__, frozenset(map(f, x)))
    if isinstance(x, (box, ThreadLocalBox, Some)): return (type(x).__name__, shape(x.get(), f))
    if x is nil: return "nil"
    if isinstance(x, cons): return ("cons", shape(x.car, f), shape(x.cdr, f))
    return f(x)


def mutables(x):
    if isinstance(x, MUT): yield x
    if isinstance(x, Values): kids = list(x.rets) + list(x.kwrets.values())
    elif isinstance(x, (dict, frozendict)): kids = list(x.values())
    elif isinstance(x, (list, tuple, collections.deque)): kids = list(x)
    elif isinstance(x, (box, ThreadLocalBox, Some)): kids = [x.get()]
    elif isinstance(x, cons): kids = [x.car, x.cdr]
    else: kids = []
    for k in kids: yield from mutables(k)


def onlyimm(x): return not any(True for _ in mutables(x))


@D.case(3000)
def mapping(r):
    leaves = []
    x = gen(r, r.randint(0, 3), leaves)
    calls = []
    f0 = M
    before = shape(x, lambda v: v); want = shape(x, f0); muts = list(mutables(x)); ident = [id(m) for m in muts]
    def f(v): calls.append(v); return f0(v)
    y = mogrify(f, x)
    check(shape(y, lambda v: v) == want, "result", got=y, want=want)
    eq(len(calls), len([1 for _ in count_leaves(before)]), "leaf calls", x=before)
    if isinstance(x, MUT): same(y, x, "mutable container replaced")
    elif onlyimm(x) and not isinstance(x, (EqItem, str, float, int, type(None))): check(shape(x, lambda v: v) == before, "immutable original changed", x=x); check(type(y) is type(x), "kind", y=y)
    eq([id(m) for m in mutables(y)], ident, "mutable containers keep their identity", before=before)


@D.case(400)
def cons_trees(r):
    """any tree of conses: improper ends, nils anywhere"""
    n = [0]
    def tree(d):
        k = r.random()
        if d == 0 or k < .2: n[0] += 1; return EqItem(n[0])
        if k < .4: return nil
        return cons(tree(d - 1), tree(d - 1))
    x = tree(r.randint(1, 5)); before = shape(x, lambda v: v); want = shape(x, M)
    calls = []
    def f(v): calls.append(v); return M(v)
    y = mogrify(f, x)
    check(shape(y, lambda v: v) == want, "result", got=y, want=want)
    eq(len(calls), n[0], "leaf calls", x=before)
    check(shape(x, lambda v: v) == before, "the original changed", before=before)


def count_leaves(s):
    """leaves in a shape produced with identity f (sets: distinct)"""
    if s == "nil": return
    if isinstance(s, tuple) and s and isinstance(s[0], str) and s[0] in ("V", "list", "deque", "tuple", "P", "dict", "frozendict", "OrderedDict", "set", "frozenset", "box", "ThreadLocalBox", "Some", "cons"):
        if s[0] == "V":
            for v in s[1]: yield from count_leaves(v)
            for k, v in s[2]: yield from count_leaves(v)
        elif s[0] in ("list", "deque", "tuple", "P"):
            for v in s[1]: yield from count_leaves(v)
        elif s[0] in ("dict", "frozendict", "OrderedDict"):
            for k, v in s[1]: yield from count_leaves(v)
        elif s[0] in ("set", "frozenset"): yield from s[1]
        elif s[0] == "cons":
            yield from count_leaves(s[1]); yield from count_leaves(s[2])
        else: yield from count_leaves(s[1])
    else: yield s


@D.case(300)
def views_and_atoms(r):
    n = r.randint(0, 8); lst = [EqItem(i) for i in range(n)]; orig = list(lst)
    sl = slice(r.choice([None, 0, 1, -2]), r.choice([None, 3, -1, 20]), r.choice([None, 1, 2, -1]))
    idx = list(range(n))[sl]
    v = view(lst, sl); out = mogrify(lambda q: M(q), v)
    same(out, v); eq(lst, [M(q) if i in idx else q for i, q in enumerate(orig)], "writable view", sl=sl)
    lst2 = list(orig); ro = roview(lst2, sl); out = mogrify(lambda q: M(q), ro); eq(lst2, orig, "read-only view changed its data"); eq(list(out), [M(orig[i]) for i in idx]); check(type(out) is list)
    d = {1: 2, 3: 4}
    eq(sorted(mogrify(lambda q: q + 1, d.values())), [3, 5]); eq(d, {1: 2, 3: 4})
    e = env(a=1); same(mogrify(lambda q: q, e), e); eq(mogrify(lambda q: q + "!", "ab"), "ab!"); eq(mogrify(lambda q: q * 2, 21), 42); same(mogrify(lambda q: 1, nil), nil)
    t = (1, (2, [3])); inner = t[1][1]; u = mogrify(lambda q: q + 1, t); eq(u, (2, (3, [4]))); same(u[1][1], inner)
    eq(mogrify(lambda q: q + 1, cons(1, 2)), cons(2, 3))
    def boom(q): raise KeyError(q)
    l3 = [1, 2]; raises(KeyError, lambda: mogrify(boom, l3)); eq(l3, [1, 2], "a failing function must not lose items")


if __name__ == "__main__":
    D.main()

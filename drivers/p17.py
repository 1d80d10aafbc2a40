from base import *
import copy, pickle
import importlib
LM = importlib.import_module("unpythonic.llist")
from unpythonic.llist import (cons, nil, ll, llist, lreverse, lappend, lzip, car, cdr, LinkedListIterator, LinkedListOrCellIterator, TailIterator, BinaryTreeIterator, JackOfAllTradesIterator, member)
D = Driver("P17")


def to_list(l):
    out = []
    while l is not nil:
        check(type(l) is cons, "not a proper list", cell=l); out.append(l.car); l = l.cdr
    return out


@D.case(300)
def lists(r):
    n = r.choice([0, 1, 2, 3, r.randint(0, 40)])
    xs = items(n)
    for l in (ll(*xs), llist(xs), llist(tuple(xs)), llist(iter(xs)), llist(x for x in xs)):
        same_items(to_list(l), xs, "construction"); same_items(list(l), xs, "iteration"); same_items(tuple(l), xs)
        if n:
            same_items(list(LinkedListIterator(l)), xs); same_items(list(LinkedListOrCellIterator(l)), xs)
            ts = list(TailIterator(l)); c = l
            eq(len(ts), n)
            for t in ts: same(t, c, "TailIterator"); c = c.cdr
            same_items(list(reversed(l)), xs[::-1], "reversed"); same_items(to_list(llist(reversed(l))), xs[::-1])
            same(car(l), xs[0]); same(cdr(l), l.cdr)
            *init, last = l; same(last, xs[-1]); eq(len(init), n - 1)
            same_items(list(JackOfAllTradesIterator(l)), xs)
            flat = xs + [nil]
    l = ll(*xs)
    same_items(to_list(lreverse(l)), xs[::-1], "lreverse"); same_items(to_list(lreverse(xs)), xs[::-1]); same_items(to_list(l), xs, "original changed")
    parts = [[Item((i, j)) for j in range(r.randint(0, 4))] for i in range(r.randint(0, 4))]
    lp = [ll(*p) for p in parts]
    same_items(to_list(lappend(*lp)), sum(parts, []), "lappend")
    for p, q in zip(lp, parts): same_items(to_list(p), q, "lappend changed its input")
    zs = [[Item((i, j)) for j in range(r.randint(0, 4))] for i in range(r.randint(1, 3))]
    got = to_list(lzip(*[ll(*z) for z in zs])); w = list(zip(*zs)); eq(len(got), len(w), "lzip length")
    for g, t in zip(got, w): same_items(to_list(g), t, "lzip")
    ys = [EqItem(r.randrange(4), i) for i in range(n)]
    l = ll(*ys)
    for k in range(5):
        if n:
            got = member(EqItem(k), l); idx = [i for i, y in enumerate(ys) if y.n == k]
            if idx: same_items(to_list(got), ys[idx[0]:], "member")
            else: same(got, False, "member of absent item")


def gentree(r, d, leaf):
    if d == 0 or r.random() < .25: return leaf(r)
    return cons(gentree(r, d - 1, leaf), gentree(r, d - 1, leaf))


def leafs(r): return r.choice([nil, nil, nil, 0, 1, 2, "a", None, ()])


def spec_eq(a, b):
    if isinstance(a, cons) and isinstance(b, cons): return spec_eq(a.car, b.car) and spec_eq(a.cdr, b.cdr)
    if isinstance(a, cons) or isinstance(b, cons): return False
    if a is nil or b is nil: return a is b
    return a == b


def rebuild(t): return cons(rebuild(t.car), rebuild(t.cdr)) if isinstance(t, cons) else t


@D.case(1200)
def equality_and_hash(r):
    d = r.randint(1, 4)
    a = cons(gentree(r, d, leafs), gentree(r, d, leafs)); b = cons(gentree(r, d, leafs), gentree(r, d, leafs)) if r.random() < .5 else mutate(r, a)
    eq(a == b, spec_eq(a, b), "equality", a=a, b=b); eq(a != b, not spec_eq(a, b)); eq(b == a, spec_eq(a, b), "symmetry")
    c = rebuild(a)
    check(a == c and not (a != c), "equal structure not equal", a=a); eq(hash(a), hash(c), "equal structures must have equal hashes")
    if a == b: eq(hash(a), hash(b))
    for x in (pickle.loads(pickle.dumps(a)), copy.copy(a), copy.deepcopy(a)):
        check(spec_eq(x, a) and x == a and hash(x) == hash(a), "pickling/copying", x=x, a=a)
    check(not (a == [1]) and not (a == nil) and a != (1, 2), "equality with other types")


def mutate(r, t):
    if not isinstance(t, cons): return leafs(r)
    if r.random() < .5: return cons(mutate(r, t.car), rebuild(t.cdr))
    return cons(rebuild(t.car), mutate(r, t.cdr))


@D.case(500)
def trees_and_improper(r):
    L = lambda r: Item(r.random())
    t = cons(gentree(r, 4, L), gentree(r, 4, L))
    def leaves(x): return leaves(x.car) + leaves(x.cdr) if isinstance(x, cons) else [x]
    got = list(BinaryTreeIterator(t)); w = leaves(t)
    eq(len(got), len(w), "BinaryTreeIterator loses or duplicates leaves"); check({id(x) for x in got} == {id(x) for x in w}, "BinaryTreeIterator: wrong leaves")
    # order as documented: at each cell non-cons car, then non-cons cdr, then car subtree, then cdr subtree
    def order(c):
        out = []
        if not isinstance(c.car, cons): out.append(c.car)
        if not isinstance(c.cdr, cons): out.append(c.cdr)
        if isinstance(c.car, cons): out += order(c.car)
        if isinstance(c.cdr, cons): out += order(c.cdr)
        return out
    same_items(got, order(t), "BinaryTreeIterator order")
    a, b, c = items(3)
    same_items(list(cons(a, b)), [a, b], "single cell"); same_items(list(LinkedListOrCellIterator(cons(a, b))), [a, b])
    it = LinkedListIterator(cons(a, b)); same(next(it), a); raises(TypeError, lambda: next(it), "improper list")
    it = iter(cons(a, cons(b, c))); same(next(it), a); same(next(it), b); raises(TypeError, lambda: next(it), "improper list of several cells")
    it = TailIterator(cons(a, b)); next(it); raises(TypeError, lambda: next(it))
    raises(TypeError, lambda: LinkedListIterator([1])); raises(TypeError, lambda: car(1)); raises(TypeError, lambda: cdr(nil))
    same_items(list(nil), [])
    same_items(list(JackOfAllTradesIterator(ll(a, cons(b, nil)))), [a, b])


@D.case()
def accessors(r):
    n = 0
    def full(d, path): return cons(full(d - 1, path + "a"), full(d - 1, path + "d")) if d else Item(path)
    t = full(4, "")
    for L in range(1, 5):
        for w in itertools.product("ad", repeat=L):
            f = getattr(LM, "c" + "".join(w) + "r")
            x = t
            for ch in reversed(w): x = x.car if ch == "a" else x.cdr
            check(spec_eq(f(t), x), "accessor", name="".join(w)); n += 1
            raises(TypeError, lambda: f(1))
    return n


@D.case(20)
def immutability(r):
    c = cons(1, 2)
    for act in (lambda: setattr(c, "car", 5), lambda: setattr(c, "cdr", 5), lambda: setattr(c, "foo", 5), lambda: setattr(c, "_immutable", False), lambda: delattr(c, "car"), lambda: delattr(c, "cdr"), lambda: delattr(c, "_immutable")):
        try: act()
        except (TypeError, AttributeError): pass
        else: fail("cons cell was modified")
        check(c.car == 1 and c.cdr == 2, "cons cell was modified")
    for x in (pickle.loads(pickle.dumps(c)), copy.copy(c), copy.deepcopy(c)):
        raises(TypeError, lambda: setattr(x, "car", 1), "a copied cell is mutable")
    same(pickle.loads(pickle.dumps(nil)), nil); same(copy.deepcopy(nil), nil)
    raises(TypeError, lambda: type(nil)())
    l = ll(*range(5000)); eq(len(list(l)), 5000); check(l == ll(*range(5000)) and hash(l) == hash(ll(*range(5000))), "long lists"); check(l != ll(*range(4999)))


if __name__ == "__main__":
    D.main()

from base import *
import typing, collections, collections.abc as abc, copy
from typing import Any, Union, Optional, Tuple, List, Dict, Set, FrozenSet, Deque, Sequence, MutableSequence, Mapping, MutableMapping, AbstractSet, MutableSet, Callable, TypeVar, NewType, KeysView, ValuesView, ItemsView
from unpythonic.typecheck import isoftype
from unpythonic.collections import frozendict
D = Driver("P24")


class A: pass
class B(A): pass
class S(str): pass
class L(list): pass
class Dd(dict): pass
P = collections.namedtuple("P", "x y")
CONCRETE = [int, str, float, bool, A, B, type(None), S, L, Dd, P, list, dict, tuple, set, frozenset, collections.deque, bytes, bytearray, object, complex, frozendict, collections.defaultdict]
SEQLIKE = [(List, list), (Set, set), (FrozenSet, frozenset), (Deque, collections.deque), (Sequence, abc.Sequence), (MutableSequence, abc.MutableSequence), (AbstractSet, abc.Set), (MutableSet, abc.MutableSet)]
MAPLIKE = [(Dict, dict), (Mapping, abc.Mapping), (MutableMapping, abc.MutableMapping)]
VIEWLIKE = [(KeysView, abc.KeysView), (ValuesView, abc.ValuesView)]
_tv = [0]


def gentype(r, depth):
    """-> (type specification, membership predicate)"""
    k = r.randrange(16) if depth > 0 else r.randrange(2)
    if k in (0, 1):
        if r.random() < .1: return Any, lambda v: True
        c = r.choice(CONCRETE); return c, lambda v: isinstance(v, c)
    if k in (2, 3):
        n = r.randint(1, 3); parts = [gentype(r, depth - 1) for _ in range(n)]
        return Union[tuple(p[0] for p in parts)], lambda v: any(p[1](v) for p in parts)
    if k == 4:
        t, p = gentype(r, depth - 1); return Optional[t], lambda v: v is None or p(v)
    if k in (5, 6):
        n = r.randint(0, 3); parts = [gentype(r, depth - 1) for _ in range(n)]
        T = Tuple[tuple(p[0] for p in parts)] if n else Tuple[()]
        return T, lambda v: isinstance(v, tuple) and len(v) == n and all(p[1](x) for p, x in zip(parts, v))
    if k == 7:
        t, p = gentype(r, depth - 1); return Tuple[t, ...], lambda v: isinstance(v, tuple) and len(v) > 0 and all(map(p, v))
    if k in (8, 9, 10):
        c, rt = r.choice(SEQLIKE); t, p = gentype(r, depth - 1)
        return c[t], lambda v: isinstance(v, rt) and len(v) > 0 and all(map(p, v))
    if k in (11, 12):
        c, rt = r.choice(MAPLIKE); (t, p), (u, q) = gentype(r, depth - 1), gentype(r, depth - 1)
        return c[t, u], lambda v: isinstance(v, rt) and len(v) > 0 and all(p(a) and q(b) for a, b in v.items())
    if k == 13:
        parts = [gentype(r, depth - 1) for _ in range(r.randint(2, 3))]; _tv[0] += 1
        try: T = TypeVar("T%d" % _tv[0], *[p[0] for p in parts])
        except TypeError: return int, lambda v: isinstance(v, int)
        return T, lambda v: any(p[1](v) for p in parts)
    if k == 14:
        t, p = gentype(r, depth - 1)
        if t is Any: return Callable, callable
        return NewType("N", t), p
    if k == 15:
        return r.choice([(Callable, callable), (Callable[[int], str], callable), (TypeVar("U"), lambda v: True), (typing.Text, lambda v: isinstance(v, str)),
                         (typing.Tuple, lambda v: isinstance(v, tuple)), (typing.Hashable, lambda v: isinstance(v, abc.Hashable)), (typing.Sized, lambda v: isinstance(v, abc.Sized)), (typing.Iterable, lambda v: isinstance(v, abc.Iterable)),
                         (typing.Container, lambda v: isinstance(v, abc.Container)), (typing.Collection, lambda v: isinstance(v, abc.Collection)), (typing.Iterator, lambda v: isinstance(v, abc.Iterator)), (typing.SupportsInt, lambda v: hasattr(type(v), "__int__")), (typing.SupportsAbs, lambda v: hasattr(type(v), "__abs__"))])


ATOMS = [0, 1, True, "x", "", 2.5, None, A(), B(), S("q"), b"", b"ab", len, int, (), P(1, "z"), 1j, object()]


def genvalue(r, depth):
    k = r.randrange(14) if depth > 0 else 0
    n = r.choice([0, 1, 1, 2, 3])
    sub = lambda: genvalue(r, depth - 1)
    hsub = lambda: r.choice([0, 1, "a", "b", 2.5, None, (1, "a"), frozenset([1]), True])
    homog = sub() if r.random() < .5 else None
    many = lambda: [copy.copy(homog) if homog is not None and r.random() < .8 else sub() for _ in range(n)]
    if k < 3: return r.choice(ATOMS)
    if k in (3, 4): return many()
    if k in (5, 6): return tuple(many())
    if k == 7: return {hsub() for _ in range(n)}
    if k == 8: return frozenset(hsub() for _ in range(n))
    if k == 9: return collections.deque(many())
    if k in (10, 11): return dict(zip([hsub() for _ in range(n)], many()))
    if k == 12: return frozendict(dict(zip([hsub() for _ in range(n)], many())))
    return r.choice([L(many()), Dd(zip([hsub() for _ in range(n)], many())), collections.defaultdict(int, {1: 2})])


def fitting(r, T, depth=3):
    """Try to build a value of T (structurally), so that positive answers are common."""
    o = getattr(T, "__origin__", None); a = getattr(T, "__args__", ())
    if T is Any: return genvalue(r, 1)
    if isinstance(T, NewType): return fitting(r, T.__supertype__)
    if isinstance(T, TypeVar): return fitting(r, r.choice(T.__constraints__)) if T.__constraints__ else genvalue(r, 1)
    if o is Union: return fitting(r, r.choice(a))
    n = r.randint(1, 3)
    if o is tuple:
        if len(a) == 2 and a[1] is Ellipsis: return tuple(fitting(r, a[0]) for _ in range(n))
        return tuple(fitting(r, x) for x in a)
    try:
        if o in (list, abc.Sequence, abc.MutableSequence): return [fitting(r, a[0]) for _ in range(n)]
        if o is collections.deque: return collections.deque(fitting(r, a[0]) for _ in range(n))
        if o in (set, abc.Set, abc.MutableSet): return {fitting(r, a[0]) for _ in range(n)}
        if o is frozenset: return frozenset(fitting(r, a[0]) for _ in range(n))
        if o in (dict, abc.Mapping, abc.MutableMapping): return {fitting(r, a[0]): fitting(r, a[1]) for _ in range(n)}
    except TypeError: return genvalue(r, 1)
    if isinstance(T, type):
        if T is P: return P(1, 2)
        if T is type(None): return None
        if T is object: return object()
        try: return T()
        except Exception: return genvalue(r, 1)
    return genvalue(r, 1)


def perturb(r, v):
    """Replace one element somewhere."""
    if isinstance(v, (list, collections.deque)) and v and type(v) in (list, collections.deque):
        w = list(v); i = r.randrange(len(w)); w[i] = perturb(r, w[i]); return type(v)(w)
    if type(v) is tuple and v:
        w = list(v); i = r.randrange(len(w))
        if r.random() < .3: w.append(w[i])
        else: w[i] = perturb(r, w[i])
        return tuple(w)
    if type(v) is dict and v:
        w = dict(v); k = r.choice(list(w)); w[k] = perturb(r, w[k]); return w
    return r.choice(ATOMS)


@D.case(6000)
def membership(r):
    T, pred = gentype(r, r.randint(0, 3))
    v = fitting(r, T) if r.random() < .7 else genvalue(r, 2)
    if r.random() < .35: v = perturb(r, v)
    snap = repr(v)
    want = pred(v)
    got = isoftype(v, T)
    check(isinstance(got, bool), "answer is not a boolean", got=got)
    eq(got, want, "wrong answer", value=v, T=T); eq(repr(v), snap, "the value was changed")


@D.case(600)
def consistency(r):
    T, p = gentype(r, 2); U, q = gentype(r, 2); v = fitting(r, r.choice([T, U])) if r.random() < .8 else genvalue(r, 2)
    a, b = isoftype(v, T), isoftype(v, U)
    eq(isoftype(v, Union[T, U]), a or b, "union", v=v, T=T, U=U); eq(isoftype((v, v), Tuple[T, U]), a and b, "tuple", v=v, T=T, U=U); eq(isoftype([v], List[T]), a, "list", v=v, T=T)
    eq(isoftype([v, v, v], Sequence[T]), a); eq(isoftype({1: v}, Dict[int, T]), a); eq(isoftype({1: v, 2: v}, Mapping[int, Union[T, U]]), a or b)
    d = {1: v}
    eq(isoftype(d.items(), ItemsView[int, T]), a, "items view", v=v, T=T); eq(isoftype(d.keys(), KeysView[int]), True); eq(isoftype(d.values(), ValuesView[T]), a)
    eq(isoftype({}.items(), ItemsView[int, T]), False); eq(isoftype([], List[T]), False); eq(isoftype((), Tuple[T, ...]), False); eq(isoftype({}, Dict[int, T]), False)


@D.case()
def positions(r):
    """One wrong element at every position of containers of every length up to 8."""
    n = 0
    for size in range(1, 9):
        for bad in [None] + list(range(size)):
            xs = ["s" if i == bad else i for i in range(size)]
            for T, v in ((List[int], xs), (Sequence[int], tuple(xs)), (Tuple[int, ...], tuple(xs)), (Tuple[(int,) * size], tuple(xs)), (Deque[int], collections.deque(xs)), (Dict[str, int], {str(i): x for i, x in enumerate(xs)}),
                         (Dict[int, str], {x: "v" for x in xs}), (List[List[int]], [[0], xs]), (List[Union[int, float]], xs), (Set[int], set(xs)), (FrozenSet[int], frozenset(xs)), (MutableSequence[int], xs), (Mapping[int, Tuple[int, ...]], {0: tuple(xs), 1: (1,)})):
                eq(isoftype(v, T), bad is None, "wrong answer", value=v, T=T); n += 1
    return n


if __name__ == "__main__":
    D.main()

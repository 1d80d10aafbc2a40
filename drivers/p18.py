from base import *
import copy, pickle, collections
from unpythonic import frozendict, fupdate
from collections.abc import Mapping, Hashable, MutableMapping, Container, Sized, Iterable
D = Driver("P18")
KEYS = ["a", "b", "c", 1, 2, None, (1, 2)]


def rnd(r, n=4, strkeys=False):
    ks = [k for k in KEYS if isinstance(k, str)] if strkeys else KEYS
    return {k: r.choice([0, 1, 2, "x", None]) for k in r.sample(ks, r.randint(0, min(n, len(ks))))}


def mkm(r, d):
    k = r.randrange(5)
    if k == 0: return d
    if k == 1: return list(d.items())
    if k == 2: return frozendict(d) if d else {}
    if k == 3: return collections.OrderedDict(d)
    return iter(list(d.items()))


def readonly(f, w, msg):
    eq(len(f), len(w), msg); eq(list(f), list(w), msg + " iteration"); eq(list(f.keys()), list(w.keys()), msg); eq(list(f.values()), list(w.values()), msg); eq(list(f.items()), list(w.items()), msg)
    for k in KEYS + ["zz"]:
        eq(k in f, k in w, msg)
        if k in w: eq(f[k], w[k], msg); eq(f.get(k, 5), w[k])
        else:
            raises(KeyError, lambda: f[k]); eq(f.get(k), None); eq(f.get(k, 7), 7)
    check(f == w and w == f and not (f != w), msg + ": equality with an equal dict"); check(f == frozendict(w) and frozendict(w) == f)
    bad = dict(w); bad["zz"] = 1
    check(f != bad and bad != f and f != frozendict(bad) and frozendict(bad) != f and not (f == bad), msg + ": inequality")
    for k in w:
        b2 = dict(w); b2[k] = Item(1); check(f != b2 and frozendict(b2) != f, msg + ": inequality by value")
        b3 = dict(w); del b3[k]; check(f != b3 and b3 != f)


@D.case(600)
def behaviour(r):
    ds = [rnd(r) for _ in range(r.randint(0, 3))]; kw = rnd(r, 2, strkeys=True) if r.random() < .5 else {}
    w = {}
    for d in ds: w.update(d)
    w.update(kw)
    srcs = [dict(d) for d in ds]; src = [mkm(r, d) for d in srcs]
    f = frozendict(*src, **kw)
    readonly(f, w, "construction")
    for d in srcs: d["zz"] = 1; d.pop("a", None)
    readonly(f, w, "after a source changed")
    other = list(w.items()); r.shuffle(other); g = frozendict(dict(other))
    check(f == g, "order must not matter"); eq(hash(f), hash(g), "equal frozendicts must have equal hashes"); eq(len({f, g}), 1)
    for c in (copy.copy(f), copy.deepcopy(f), pickle.loads(pickle.dumps(f)), pickle.loads(pickle.dumps(f, 0)), frozendict(f)):
        readonly(c, w, "copy/pickle"); eq(hash(c), hash(f)); check(type(c) is frozendict)
    up = rnd(r, 3, strkeys=True)
    h = fupdate(f, **up); readonly(f, w, "original after fupdate"); readonly(h, {**w, **up}, "fupdate"); check(type(h) is frozendict)
    h = frozendict(f, **up); readonly(h, {**w, **up}, "extension")
    for act in (lambda: f.__setitem__("a", 1), lambda: f.__delitem__("a"), lambda: f.update({"q": 1}), lambda: f.pop("a", None), lambda: f.clear(), lambda: f.setdefault("q", 1), lambda: f.popitem(), lambda: f.__ior__({"q": 1})):
        try: act()
        except (TypeError, AttributeError): pass
        else: fail("a mutating operation exists")
        readonly(f, w, "after a mutation attempt")
    for view in (f.items(), f.keys(), f.values()):
        for name in ("add", "clear", "pop", "remove", "__setitem__"): check(not hasattr(view, name))
    check(isinstance(f, Mapping) and isinstance(f, Hashable) and not isinstance(f, MutableMapping))


@D.case(20)
def misc(r):
    e = frozendict(); same(frozendict(), e, "one empty frozendict"); eq(len(e), 0); check(e == {}); same(pickle.loads(pickle.dumps(e)), e); same(copy.copy(e), e); same(copy.deepcopy(e), e)
    check(frozendict({}) == e and hash(frozendict({})) == hash(e)); readonly(e, {}, "empty")
    f = frozendict(a=1); check(frozendict() is e); readonly(e, {}, "empty after others")
    raises(TypeError, lambda: hash(frozendict(a=[])), "unhashable value")
    readonly(frozendict({"a": 1}, [("a", 2)], a=3), {"a": 3}, "rightmost wins")
    d = {frozendict(a=1, b=2): "x"}; eq(d[frozendict(b=2, a=1)], "x")
    nested = frozendict(a=frozendict(b=1)); check(pickle.loads(pickle.dumps(nested)) == nested and hash(nested) == hash(frozendict(a=frozendict(b=1))))


if __name__ == "__main__":
    D.main()

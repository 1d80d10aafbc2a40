from base import *
from collections import deque, UserList
from unpythonic import roview, view, ShadowedSequence
from unpythonic import SequenceView, MutableSequenceView
D = Driver("P04")


def rslice(r, n):
    b = lambda: r.choice([None, None, r.randrange(-n - 3, n + 4)])
    return slice(b(), b(), r.choice([None, None, 1, 2, 3, -1, -2, -3]))


class Node:
    """Specification: a view is a chain of slices; its contents are data[s1][s2]..."""
    def __init__(self, v, path):
        self.v = v
        self.path = path
    def positions(self, data):
        p = list(range(len(data)))
        for s in self.path:
            p = p[s]
        return p


def observe(node, data, r, **ctx):
    pos = node.positions(data)
    want = [data[p] for p in pos]
    v = node.v
    eqv(len(v), len(want), "length of view", path=node.path, data=data, **ctx)
    same_items(list(v), want, "iteration of view", path=node.path, data=data, **ctx)
    n = len(want)
    for k in range(-n, n):
        same(v[k], want[k], "index into view", path=node.path, k=k, data=data)
    raises(IndexError, lambda: v[n])
    raises(IndexError, lambda: v[-n - 1])
    s = rslice(r, n)
    same_items(list(v[s]), want[s], "slice of view", path=node.path, s=s, data=data)
    check(v == want, "equality with list of contents")
    check(not (v == want + [None]), "equality with longer list")
    if n:
        w2 = list(want); w2[r.randrange(n)] = Item("other")
        check(not (v == w2), "equality with different list")
    same_items(list(reversed(v)), want[::-1], "reversed view", path=node.path)


def mkbase(r, n):
    xs = items(n)
    return r.choice([list, UserList, list])(xs)


@D.case(400)
def history(r):
    n = r.randrange(0, 9)
    data = mkbase(r, n)
    writable = r.randrange(4) != 0
    ctor = view if writable else roview
    nodes = [Node(ctor(data), [])]
    fresh = itertools.count(100)
    for step in range(r.randrange(3, 14)):
        op = r.randrange(10)
        node = r.choice(nodes)
        if op <= 2:
            s = rslice(r, len(node.v))
            nodes.append(Node(node.v[s], node.path + [s]))
        elif op == 3:
            s = rslice(r, len(node.v))
            nodes.append(Node(r.choice([type(node.v), roview])(node.v, s), node.path + [s]))
        elif op == 4 and writable and isinstance(node.v, view):
            pos = node.positions(data)
            if pos:
                k = r.randrange(-len(pos), len(pos))
                x = Item(next(fresh))
                want = list(data); want[pos[k]] = x
                node.v[k] = x
                same_items(list(data), want, "item write-through", path=node.path, k=k)
        elif op == 5 and writable and isinstance(node.v, view):
            pos = node.positions(data)
            s = rslice(r, len(pos))
            tgt = pos[s]
            want = list(data)
            if r.randrange(3) == 0:
                x = Item(next(fresh))
                for p in tgt:
                    want[p] = x
                node.v[s] = x
            else:
                xs = [Item(next(fresh)) for _ in tgt]
                for p, x in zip(tgt, xs):
                    want[p] = x
                node.v[s] = r.choice([list, tuple, iter])(xs)
            same_items(list(data), want, "slice write-through", path=node.path, s=s)
        elif op == 6:
            data.append(Item(next(fresh)))
        elif op == 7 and len(data):
            data.pop(r.randrange(len(data)))
        elif op == 8:
            data.insert(r.randrange(len(data) + 1), Item(next(fresh)))
        elif op == 9 and len(data):
            data[r.randrange(len(data))] = Item(next(fresh))
        if op == 9 and writable and isinstance(node.v, view) and r.randrange(3) == 0:
            pos = node.positions(data)
            want = list(data)
            vals = [want[p] for p in pos][::-1]
            for p, x in zip(pos, vals):
                want[p] = x
            node.v.reverse()
            same_items(list(data), want, "reverse through view", path=node.path)
        for nd in nodes if step % 2 else [r.choice(nodes)]:
            observe(nd, list(data), r, step=step)


@D.case()
def length_changes_under_nested_views(r):
    cnt = 0
    sl = [slice(a, b, c) for a in (None, 0, 1, -3, -1) for b in (None, 2, -1) for c in (None, 2, -1)]
    for s1 in sl:
        for s2 in sl:
            for n0, n1 in ((3, 5), (5, 3), (4, 4), (0, 4), (4, 0), (2, 3)):
                data = items(n0)
                v1 = view(data)[s1]
                v2 = v1[s2]
                v3 = roview(v2)[1:]
                list(v2); list(v3); len(v1)
                data[:] = items(n1)
                r1 = data[s1]
                same_items(list(v2), r1[s2], "nested view after length change", s1=s1, s2=s2, n0=n0, n1=n1)
                eqv(len(v2), len(r1[s2]))
                same_items(list(v3), r1[s2][1:], "nested view after length change", s1=s1, s2=s2, n0=n0, n1=n1)
                same_items(list(v1), r1)
                cnt += 1
    return cnt


@D.case()
def all_slices_fixed(r):
    cnt = 0
    for n in range(0, 6):
        for a in [None] + list(range(-n - 1, n + 2)):
            for b in [None] + list(range(-n - 1, n + 2)):
                for c in (None, 1, 2, -1, -2, 3, -3):
                    data = items(n)
                    s = slice(a, b, c)
                    v = view(data)[s]
                    same_items(list(v), data[s], "view contents", n=n, s=s)
                    eqv(len(v), len(data[s]))
                    pos = list(range(n))[s]
                    for k in range(-len(pos), len(pos)):
                        d2 = items(n); w = list(d2); x = Item("x")
                        view(d2)[s][k] = x
                        w[pos[k]] = x
                        same_items(d2, w, "item write", n=n, s=s, k=k)
                    cnt += 1
    return cnt


@D.case()
def read_only(r):
    t = (1, 2, 3, 4)
    raises(TypeError, lambda: view(t))
    raises(TypeError, lambda: view("abc"))
    raises(TypeError, lambda: view(range(3)))
    l = [1, 2, 3]
    ro = roview(l)
    raises(TypeError, lambda: view(ro))
    raises(TypeError, lambda: view(ro[1:]))
    raises(TypeError, lambda: view(roview(view(l))))
    def w(x, k, v):
        x[k] = v
    raises(TypeError, lambda: w(ro, 0, 9)); raises(TypeError, lambda: w(ro[1:], 0, 9)); raises(TypeError, lambda: w(ro, slice(None), [9, 9, 9]))
    check(not hasattr(ro, "reverse") and not hasattr(ro[::2], "append"), "read-only view has mutators")
    for name in ("append", "insert", "pop", "remove", "clear", "extend", "__delitem__"):
        check(not hasattr(ro, name) and not hasattr(view(l), name), "view can change length", name=name)
    eq(l, [1, 2, 3])
    check(isinstance(ro, SequenceView) and not isinstance(ro, MutableSequenceView) and isinstance(view(l), MutableSequenceView))
    raises(TypeError, lambda: ro[0, 1])
    raises(TypeError, lambda: w(view(l), (0, 1), 3))
    raises(IndexError, lambda: w(view(l), 3, 0)); raises(IndexError, lambda: w(view(l), -4, 0)); raises(IndexError, lambda: w(view(l)[1:], 2, 0))
    eq(l, [1, 2, 3])
    same_items(list(roview(t)[::-1]), t[::-1]); same_items(list(roview(t)[1:][::2]), (2, 4))
    eq("".join(roview("hello")[1:-1]), "ell")
    rv = roview(ShadowedSequence((1, 2, 3), 1, 20)); eq(list(rv), [1, 20, 3])
    check(roview(l) == view(l) and roview(l)[1:] == [2, 3] and roview(l) == (1, 2, 3))
    # ro view of writable view is live
    v = view(l); rr = roview(v)
    v[0] = 10
    eq(list(rr), [10, 2, 3]); eq(list(ro), [10, 2, 3])


if __name__ == "__main__":
    D.main()

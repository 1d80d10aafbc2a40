from base import *
from unpythonic import box, ThreadLocalBox, Some, unbox, Shim
D = Driver("P19")


def look(b, v, msg, hist=None):
    same(b.get(), v, msg, hist=hist); same(unbox(b), v, msg, hist=hist); eq([id(x) for x in b], [id(v)], msg + " (iteration)", hist=hist); eq(len(b), 1, msg)
    check(v in b, msg + " (membership)", hist=hist); check(Item("other") not in b); check(b == v, msg + " (equality with the content)", hist=hist); check(b != Item("other"))
    check(bool(b) is True)


@D.case(400)
def histories(r):
    cls = r.choice([box, ThreadLocalBox])
    vals = [Item(0), EqItem(1), None, 0, (), [], "x", EqItem(1, 2)]
    n = r.randint(1, 3)
    bs = []; model = []; dfl = []; isset = []
    for _ in range(n):
        v = r.choice(vals); bs.append(cls(v)); dfl.append(v); model.append(v); isset.append(False)
    hist = []
    for _ in range(r.randint(1, 20)):
        i = r.randrange(n); v = r.choice(vals)
        op = r.choice(["set", "lshift"] + (["setdefault", "clear"] if cls is ThreadLocalBox else []))
        hist.append((op, i, v))
        if op == "set": same(bs[i].set(v), v, "set returns the value"); model[i] = v; isset[i] = True
        elif op == "lshift": same(bs[i] << v, v, "<< returns the value"); model[i] = v; isset[i] = True
        elif op == "setdefault":
            bs[i].setdefault(v); dfl[i] = v; same(bs[i].getdefault(), v)
            if not isset[i]: model[i] = v
        else: bs[i].clear(); isset[i] = False; model[i] = dfl[i]
        for b, m in zip(bs, model): look(b, m, "box content", hist)
    if cls is box:
        check(box(1) == box(1) and box(1) != box(2))
    b = box(); same(b.get(), None); b = ThreadLocalBox(); same(b.get(), None)


@D.case(100)
def some_and_unbox(r):
    v = r.choice([Item(1), None, 0, [], "x"]); s = Some(v); look(s, v, "Some")
    for name in ("set", "__lshift__", "clear"): check(not hasattr(s, name), "Some can be changed")
    check(Some(1) == Some(1) and Some(1) != Some(2)); check(Some(None) is not None)
    for x in (1, [1], None, (1,)): raises(TypeError, lambda: unbox(x))


@D.case(150)
def threadlocal(r):
    """Random interleaving of operations by several real threads, scheduled one step at a time, against a model."""
    nt = r.randint(2, 3); nb = r.randint(1, 2)
    bs = [ThreadLocalBox(Item(("init", i))) for i in range(nb)]
    dfl = [b.get() for b in bs]; cur = [{} for _ in range(nb)]
    hist = []
    def prog(t):
        def g():
            for k in range(6):
                i = r.randrange(nb); v = r.choice([Item((t, k)), None, 0]); op = r.choice(["set", "lshift", "clear", "setdefault", "get", "get"])
                hist.append((t, op, i))
                if op == "set": bs[i].set(v); cur[i][t] = v
                elif op == "lshift": bs[i] << v; cur[i][t] = v
                elif op == "clear": bs[i].clear(); cur[i].pop(t, None)
                elif op == "setdefault": bs[i].setdefault(v); dfl[i] = v
                for j in range(nb):
                    look(bs[j], cur[j].get(t, dfl[j]), "thread-local content", hist); same(bs[j].getdefault(), dfl[j])
                yield
        return g
    stepwise([prog(t) for t in range(nt)], [r.randrange(nt) for _ in range(12)])


class Obj:
    pass


@D.case(300)
def shim(r):
    fb_kind = r.choice(["none", "obj", "box", "falsyobj"])
    o1, o2, fb = Obj(), Obj(), Obj()
    class Falsy(Obj):
        def __bool__(self): return False
    if fb_kind == "falsyobj": fb = Falsy()
    b = r.choice([box, ThreadLocalBox])(o1); fbb = box(fb)
    s = Shim(b, fallback={"none": None, "obj": fb, "box": fbb, "falsyobj": fb}[fb_kind])
    names = ["p", "q", "x", "get", "set"]
    models = {id(o1): {}, id(o2): {}, id(fb): {}}
    for o in (o1, o2, fb):
        for n in names:
            if r.random() < .4: v = r.choice([Item(n), None, 0]); setattr(o, n, v); models[id(o)][n] = v
    for _ in range(12):
        cur = b.get(); op = r.choice(["swap", "set", "get", "get", "setboxed"])
        if op == "swap": b << r.choice([o1, o2])
        elif op == "set":
            n = r.choice(names); v = Item(("via shim", n)); setattr(s, n, v); models[id(cur)][n] = v; same(getattr(cur, n), v, "write did not reach the boxed object")
        elif op == "setboxed" and fb_kind == "box":
            fbb << fb
        cur = b.get()
        for n in names:
            if n in models[id(cur)]: same(getattr(s, n), models[id(cur)][n], "read through the shim", n=n)
            elif fb_kind != "none" and n in models[id(fb)]: same(getattr(s, n), models[id(fb)][n], "fallback read", n=n, kind=fb_kind)
            else: raises(AttributeError, lambda: getattr(s, n), "absent attribute", n=n)
        for o in (o1, o2, fb):
            eq(sorted(vars(o)), sorted(models[id(o)]), "an object other than the boxed one was written to")
            for n in models[id(o)]: same(getattr(o, n), models[id(o)][n])
    raises(TypeError, lambda: Shim(42))


if __name__ == "__main__":
    D.main()

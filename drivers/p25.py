from base import *
import pickle, copy, gc, weakref
from unpythonic.symbol import sym, gensym, Symbol
from unpythonic.singleton import Singleton
D = Driver("P25")


class SA(Singleton): pass
class SB(Singleton):
    def __init__(self, x=0): self.x = x
class SC(SB): pass


@D.case(300)
def named(r):
    names = ["n%d" % r.randint(0, 30) for _ in range(12)] + ["", "a b", "ä", "x" * 200]
    made = {}
    for nm in names:
        x = sym(nm)
        if nm in made: same(x, made[nm], "two objects for one name", name=nm)
        for other, y in made.items(): eq(x is y, nm == other, "symbol identity"); eq(x == y, nm == other, "symbol equality")
        made[nm] = x
        eq(str(x), nm); eq(x.name, nm); check(isinstance(x, Symbol))
        for p in range(pickle.HIGHEST_PROTOCOL + 1):
            if p >= 2: same(pickle.loads(pickle.dumps(x, p)), x, "pickling", proto=p, name=nm)
        same(copy.copy(x), x); same(copy.deepcopy(x), x); same(copy.deepcopy([x, {1: x}])[1][1], x); eq(hash(x), hash(sym(nm))); same({x: 1}.get(sym(nm)), 1)
    big = {nm: made[nm] for nm in names}
    for nm, x in pickle.loads(pickle.dumps(big)).items(): same(x, made[nm])


@D.case(60)
def threads(r):
    base = f"t{r.random()}"
    bar = threading.Barrier(8)
    def w(i):
        def go():
            bar.wait()
            return [sym(f"{base}-{k}") for k in range(40)] + [gensym(f"{base}-{k}") for k in range(5)]
        return go
    sw = sys.getswitchinterval(); sys.setswitchinterval(1e-6)
    try: res = [x[1] for x in run_threads([w(i) for i in range(8)])]
    finally: sys.setswitchinterval(sw)
    for k in range(40): check(all(x[k] is res[0][k] for x in res), "threads got different symbols of one name", k=k)
    g = [x for y in res for x in y[40:]]
    eq(len(set(map(id, g))), 40); eq(len(set(g)), 40, "generated symbols coincide")


def at_event(k, th, inject):
    """run th; at the k-th line event inside unpythonic's symbol or singleton module, run inject (once). Returns (result, reached)"""
    n = [0]
    def local(fr, ev, arg):
        if ev == "line":
            n[0] += 1
            if n[0] == k: sys.settrace(None); inject()
        return local
    def tr(fr, ev, arg): return local if fr.f_globals.get("__name__") in ("unpythonic.symbol", "unpythonic.singleton") else None
    old = sys.gettrace()
    sys.settrace(tr)
    try: x = th()
    finally: sys.settrace(old)
    return x, n[0] >= k


@D.case(30)
def forced_interleavings(r):
    """Another thread creates the same symbol (or singleton) at the k-th line of the creation, for every k."""
    for k in range(1, 30):
        name, got = f"r{r.random()}", []
        if r.random() < .5:
            make = lambda: sym(name)
        else:
            K = type("K", (Singleton,), {})
            def make():
                try: return K()
                except TypeError: return None
        ts = []
        def inject():
            t = threading.Thread(target=lambda: got.append(make()), daemon=True); ts.append(t); t.start(); t.join(.05)  # it may have to wait for a lock
        x, reached = at_event(k, make, inject)
        if not reached: break
        for t in ts: t.join(10)
        check(len(got) == 1, "the other thread did not finish", k=k)
        if x is not None and got[0] is not None: same(got[0], x, "two objects made where there can be only one", k=k)
        check(x is not None or got[0] is not None, "neither thread got the object", k=k)
        y = make()
        if y is not None: same(y, x if x is not None else got[0], "not the same object afterwards")


@D.case(300)
def generated(r):
    label = r.choice(["a", "b", ""])
    gs = [gensym(label) for _ in range(r.randint(1, 8))]
    for i, g in enumerate(gs):
        check(isinstance(g, Symbol) and g != sym(label) and g is not sym(label)); eq(g.label, label); check(label in str(g))
        for j, h in enumerate(gs): eq(g == h, i == j, "generated symbols"); eq(g is h, i == j)
        for p in range(2, pickle.HIGHEST_PROTOCOL + 1): same(pickle.loads(pickle.dumps(g, p)), g, "pickling", proto=p)
        same(copy.deepcopy(g), g); same(copy.copy(g), g); check(g != sym(str(g))); same(pickle.loads(pickle.dumps([g, g]))[1], g)
    eq(len(set(gs)), len(gs))
    # a symbol restored from a pickle of a dead one is a different one from new ones
    d = pickle.dumps(gensym(label)); a = pickle.loads(d); same(pickle.loads(d), a); check(a not in gs)


@D.case(200)
def singletons(r):
    live = {}
    for _ in range(20):
        C = r.choice([SA, SB, SC]); op = r.randrange(4)
        if op == 0:
            if C in live: raises(TypeError, lambda: C(), "second instance allowed")
            else:
                live[C] = C() if C is SA else C(r.randint(1, 9)); check(type(live[C]) is C)
        elif op == 1 and C in live:
            x = live[C]; before = dict(vars(x)); raises(TypeError, (lambda: C()) if C is SA else (lambda: C(99))); eq(dict(vars(x)), before, "a refused construction changed the instance")
        elif op == 2 and C in live:
            for p in range(2, pickle.HIGHEST_PROTOCOL + 1): same(pickle.loads(pickle.dumps(live[C], p)), live[C], "unpickling made another instance", proto=p)
            same(copy.copy(live[C]), live[C]); same(copy.deepcopy(live[C]), live[C])
        elif op == 3 and C in live:
            w = weakref.ref(live.pop(C)); x = None; check(w() is None, "singleton kept alive")
        for P_ in live:
            for Q_ in live: eq(live[P_] is live[Q_], P_ is Q_)
    live.clear(); x = None


@D.case(40)
def singleton_threads(r):
    K = type("K", (Singleton,), {"__init__": lambda self: time.sleep(0.0005)})
    bar = threading.Barrier(6)
    def go(): bar.wait(); return K()
    res = run_threads([go] * 6)
    ok = [x for x in res if x[0] == "ok"]; eq(len(ok), 1, "number of instances"); check(all(x[0] == "ok" or x[1] is TypeError for x in res))
    raises(TypeError, K)


class _Args(Singleton):
    def __init__(self, *a, **k): self.got = (a, k)


@D.case(50)
def construction_args(r):
    global _keep
    _keep = None; gc.collect()
    a = tuple(items(r.randint(0, 3))); k = {n: Item(n) for n in r.sample("xyz", r.randint(0, 3))}
    _keep = _Args(*a, **k); eq(_keep.got[0], a); check(_keep.got[1] == k, "keyword arguments of the construction", got=_keep.got[1])
    raises(TypeError, lambda: _Args(*a, **k)); same(pickle.loads(pickle.dumps(_keep)) if not a and not k else _keep, _keep)
    _keep = None


@D.case(40)
def symbol_races(r):
    """Threads unpickling or creating the same symbols at once all get the same objects."""
    name = f"race{r.random()}"; u = gensym(name)
    data = pickle.dumps(u); bar = threading.Barrier(6); old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        def work():
            bar.wait(); return [sym(name), pickle.loads(data), gensym(name)]
        out = run_threads([work] * 6)
    finally: sys.setswitchinterval(old)
    out = [x[1] for x in out]
    for o in out: same(o[0], out[0][0], "named symbol differs between threads"); same(o[1], u, "generated symbol lost its identity")
    eq(len({id(o[2]) for o in out}), 6, "generated symbols coincide")


if __name__ == "__main__":
    D.main()

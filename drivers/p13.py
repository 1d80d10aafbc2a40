from base import *
from unpythonic import dyn, make_dynvar
import contextlib
D = Driver("P13")
UID = [0]
VARS = ["pv1", "pv2", "pv3", "pv4"]


class Stop(Exception):
    pass


def observe(names, model, hist):
    """model: list of dicts, innermost last; first is the global default layer"""
    for n in names:
        want = [s[n] for s in reversed(model) if n in s]
        if want:
            same(getattr(dyn, n), want[0], "dyn attribute", name=n, hist=hist); same(dyn[n], want[0]); check(n in dyn); same(dyn.get(n), want[0])
        else:
            raises(AttributeError, lambda: getattr(dyn, n), "unbound dynamic variable", name=n, hist=hist); check(n not in dyn); d = Item("d"); same(dyn.get(n, d), d)
    flat = {}
    for s in model:
        flat.update(s)
    got = {k: v for k, v in dyn.items() if k in names}
    check({k: id(v) for k, v in got.items()} == {k: id(v) for k, v in flat.items() if k in names}, "mapping view differs", got=got, want=flat, hist=hist)
    eq(len([k for k in dyn if k in names]), len([k for k in flat if k in names]), "iteration", hist=hist)
    v = dyn.asdict()
    for n in names:
        eq(n in v, n in flat)


def run_program(r, names, model, hist, depth, budget):
    """random structured program over blocks, updates, exceptions"""
    live = dyn.asdict()
    def obs():
        observe(names, model, hist)
        flat = {}
        for s in model: flat.update(s)
        for n in names:
            eq(n in live, n in flat, "live view", hist=hist)
            if n in flat: same(live[n], flat[n], "live view", hist=hist)
    obs()
    for _ in range(r.randint(1, 4)):
        if budget[0] <= 0:
            return
        budget[0] -= 1
        op = r.choice(["let", "let", "set", "update", "updatebad", "raise", "setitem"] if depth else ["let", "let", "set", "update"])
        if op == "let":
            b = {n: r.choice([Item(budget[0]), None, 0] + [sc[n] for sc in model[:1] + model[-1:] if n in sc]) for n in r.sample(names, r.randint(0, 3))}
            hist.append(("enter", sorted(b)))
            saved = len(model)
            try:
                with dyn.let(**b):
                    model.append(dict(b))
                    run_program(r, names, model, hist, depth + 1, budget)
                hist.append(("exit",))
            except Stop:
                hist.append(("exc exit",))
                if r.random() < .4 and depth > 0:
                    del model[saved:]
                    raise
            del model[saved:]
        elif op in ("set", "setitem"):
            n = r.choice(names); v = Item(("set", budget[0])); hist.append(("set", n))
            act = (lambda: setattr(dyn, n, v)) if op == "set" else (lambda: dyn.__setitem__(n, v))
            sc = [s for s in reversed(model) if n in s]
            if sc: act(); sc[0][n] = v
            else: raises(AttributeError, act, "assignment to an unbound dynamic variable", hist=hist)
        elif op in ("update", "updatebad"):
            ns = r.sample(names, r.randint(1, 3)); new = {n: Item(("upd", budget[0], n)) for n in ns}; hist.append(("update", ns))
            if all(any(n in s for s in model) for n in ns):
                dyn.update(**new)
                for n in ns:
                    [s for s in reversed(model) if n in s][0][n] = new[n]
            else:
                raises(AttributeError, lambda: dyn.update(**new), "update of an unbound dynamic variable", hist=hist)
        elif op == "raise":
            hist.append(("raise",)); raise Stop
        obs()


@D.case(400)
def programs(r):
    UID[0] += 1
    names = [f"p{UID[0]}_{i}" for i in range(4)]
    dflt = {n: Item("default") for n in r.sample(names, r.randint(0, 2))}
    make_dynvar(**dflt)
    model = [dict(dflt)]
    hist = [("default", sorted(dflt))]
    try:
        run_program(r, names, model, hist, 0, [14])
    except Stop:
        pass
    del model[1:]
    observe(names, model, hist)
    return len(hist)


@D.case(100)
def generators_and_nonlocal_exit(r):
    UID[0] += 1
    n = f"g{UID[0]}"
    make_dynvar(**{n: 0})
    def f(d):
        with dyn.let(**{n: d}):
            if d == 5:
                raise KeyError
            return f(d + 1)
    try:
        f(1)
    except KeyError:
        pass
    eq(dyn[n], 0, "not restored after a deep exception")
    def g():
        with dyn.let(**{n: 7}):
            return dyn[n]
    eq(g(), 7); eq(dyn[n], 0)
    for e in (KeyboardInterrupt, SystemExit, GeneratorExit):
        try:
            with dyn.let(**{n: 1}):
                raise e
        except e:
            pass
        eq(dyn[n], 0)


@D.case(60)
def threads(r):
    UID[0] += 1
    names = [f"t{UID[0]}_{i}" for i in range(3)]
    a, b, c = names
    d = Item("default")
    make_dynvar(**{a: d})
    x, y = Item("main x"), Item("main y")
    go1, go2, done1 = threading.Event(), threading.Event(), threading.Event()
    def worker():
        same(dyn[a], x, "a new thread starts from the main thread's bindings"); same(dyn[b], y)
        z, w = Item("z"), Item("w")
        with dyn.let(**{a: z, c: w}):
            same(dyn[a], z); same(dyn[c], w); dyn[b] = w
            done1.set(); check(go1.wait(10))
            same(dyn[a], z, "another thread's rebinding became visible"); same(dyn[b], w, "another thread's update became visible")
        same(dyn[a], x); same(dyn[b], w); check(c not in dyn)
        dyn.update(**{a: z})
        same(dyn[a], z)
        return True
    with dyn.let(**{a: x, b: y}):
        t_out = []
        def run():
            t_out.append(outcome2(worker))
        t = threading.Thread(target=run, daemon=True); t.start()
        check(done1.wait(10), "worker did not reach its block", out=t_out)
        same(dyn[a], x, "a thread's block is visible to the main thread"); same(dyn[b], y, "a thread's update is visible to the main thread"); check(c not in dyn)
        dyn[b] = Item("later"); dyn[a] = Item("later2")
        with dyn.let(**{a: 1, b: 2, c: 3}):
            go1.set(); t.join(10)
        check(t_out and t_out[0][0] == "ok", "worker failed", out=t_out)
        eq(dyn[b].n, "later"); eq(dyn[a].n, "later2")
    same(dyn[a], d); check(b not in dyn)
    # threads do not see each other
    errs = []
    bar = threading.Barrier(3)
    def w(i):
        bar.wait(10)
        for k in range(20):
            with dyn.let(**{a: (i, k)}):
                with dyn.let(**{b: i}):
                    time.sleep(0)
                    eq(dyn[a], (i, k)); eq(dyn[b], i); dyn[a] = (i, -k); eq(dyn[a], (i, -k))
        same(dyn[a], d)
    for o in run_threads([lambda i=i: w(i) for i in range(3)]):
        if o[0] != "ok":
            raise o[2]


def outcome2(f):
    try:
        return ("ok", f())
    except BaseException as e:
        return ("exc", type(e), e)


if __name__ == "__main__":
    D.main()

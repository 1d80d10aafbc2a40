from base import *
import typing
from unpythonic.fix import fix, fixtco
from unpythonic.tco import trampolined, jump
D = Driver("P29")


class Stop(Exception): pass


def graph(r, n, mutual):
    """Functions F0..Fm-1 over nodes; node v: list of (function, node) calls; or a base value."""
    m = r.randint(1, 3) if mutual else 1
    edges = {(f, v): [(r.randrange(m), r.randrange(n)) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))] for f in range(m) for v in range(n)}
    return m, edges


@D.case(1500)
def recursion(r):
    n = r.randint(1, 6)
    m, edges = graph(r, n, r.random() < .6)
    fault = (r.randrange(m), r.randrange(n)) if r.random() < .3 else None
    bottomkind = r.randrange(3)
    faults = [0]
    B = Item("bottom")
    calls = []
    deco = fix(memo=False) if bottomkind == 0 else fix(bottom=B, memo=False) if bottomkind == 1 else fix(bottom=lambda name, *a, **k: ("B", name, a, tuple(k.items())), memo=False)
    fs = []
    def mkf(i):
        def body(v, tag="t"):
            calls.append((i, v))
            if armed[0] and (i, v) == fault: raise Stop()
            out = []
            for j, (g, w) in enumerate(edges[(i, v)]):
                out.append(fs[g](w) if (j + i) % 2 else fs[g](v=w))
            return (i, v, tuple(out))
        body.__name__ = f"F{i}"
        return deco(body)
    armed = [False]
    for i in range(m): fs.append(mkf(i))
    def spec(i, v, path, byname, wlog):
        if (i, v) in path:
            return typing.NoReturn if bottomkind == 0 else B if bottomkind == 1 else (("B", f"F{i}", (), (("v", v),)) if byname else ("B", f"F{i}", (v,), ()))
        wlog.append((i, v))
        if armed[0] and (i, v) == fault: raise Stop()
        return (i, v, tuple(spec(g, w, path | {(i, v)}, not (j + i) % 2, wlog) for j, (g, w) in enumerate(edges[(i, v)])))
    for _ in range(4):
        i, v = r.randrange(m), r.randrange(n)
        armed[0] = r.random() < .5
        del calls[:]; wl = []
        want = outcome(lambda: spec(i, v, frozenset(), False, wl))
        got = outcome(lambda: fs[i](v))
        if want[0] == "exc": check(got[0] == "exc" and got[1] is Stop, "exception lost", got=got)
        else: check(got[0] == "ok", "raised", got=got, edges=edges); eq(got[1], want[1], "result", edges=edges, start=(i, v))
        eq(calls, wl, "evaluations", edges=edges, start=(i, v))
    from unpythonic.fix import _get_threadlocals
    eq(set(_get_threadlocals().visited), set(), "bookkeeping left behind"); eq(len(_get_threadlocals().tco_stack), 0)


@D.case(25)
def threads(r):
    n = r.randint(2, 5)
    succ = [r.randrange(n) for _ in range(n)]
    B = Item("bottom")
    bar = threading.Barrier(4)
    @fix(bottom=B, memo=False)
    def f(v):
        try: bar.wait(0.01)
        except threading.BrokenBarrierError: pass
        return (v, f(succ[v]))
    def want(v, path=()): return B if v in path else (v, want(succ[v], path + (v,)))
    for i, x in enumerate(run_threads([lambda s=i % n: f(s) for i in range(4)])): check(x == ("ok", want(i % n)), "threads disturb each other", got=x, want=want(i % n))


@D.case(600)
def memoized(r):
    """memo=True: terminates; acyclic parts are exact and evaluated once."""
    n = r.randint(1, 7)
    edges = {v: [w for w in range(v) if r.random() < .5] for v in range(n)}
    calls = []
    @fix()
    def f(v):
        calls.append(v); return (v, tuple(f(w) for w in edges[v]))
    def spec(v): return (v, tuple(spec(w) for w in edges[v]))
    for v in (r.randrange(n), r.randrange(n)): eq(f(v), spec(v), "acyclic recursion"); 
    eq(len(calls), len(set(calls)), "memoized evaluation repeated")
    @fix()
    def loop(v): return loop((v + 1) % n)
    same(loop(0), typing.NoReturn)
    @fix(bottom=42)
    def loop2(v): return loop2((v * 3 + 1) % 11)
    eq(loop2(r.randrange(11)), 42)


@D.case(300)
def tco(r):
    """Tail-call version: terminates on every finite graph, long chains included; fuel-free chains give the real result."""
    n = r.choice([1, 2, 5, 3000]); B = Item("bottom")
    succ = [r.randrange(n) for _ in range(n)] if n < 10 else [(i + 1) % n for i in range(n)]
    stopat = r.randrange(n) if r.random() < .5 else None
    @fixtco(bottom=B)
    @trampolined if False else (lambda f: f)
    def f(v):
        if v == stopat: return ("done", v)
        return jump(f, succ[v])
    def spec(v):
        seen = set()
        while v not in seen:
            if v == stopat: return ("done", v)
            seen.add(v); v = succ[v]
        return B
    for _ in range(2):
        v = r.randrange(n); eq(f(v), spec(v), "fixtco", n=n, start=v, stopat=stopat)


@D.case(1500)
def mixed(r):
    """Tail calls and ordinary calls between fixtco (and fix) functions, failures caught by a caller in the middle of the recursion."""
    n = r.randint(1, 5); m = r.randint(1, 3)
    kinds = [r.choice(["tco", "tco", "fix"]) for _ in range(m)]
    plan = {(f, v): ([(r.randrange(m), r.randrange(n), r.random() < .5) for _ in range(r.choice([0, 1, 1, 2, 2]))], (r.randrange(m), r.randrange(n), r.random() < .5) if kinds[f] == "tco" and r.random() < .6 else None, r.random() < .3) for f in range(m) for v in range(n)}
    fault = (r.randrange(m), r.randrange(n)) if r.random() < .5 else None
    if r.random() < .5: B = Item("bottom"); bot = B; bv = lambda name, a, k: B
    else: bot = lambda name, *a, **k: ("B", name, a, tuple(k.items())); bv = lambda name, a, k: ("B", name, a, tuple(k.items()))
    fs = []
    def mkf(i):
        def body(v, tag="t"):
            if (i, v) == fault: raise Stop()
            calls, tail, guard = plan[(i, v)]; out = []
            for g, w, byname in calls:
                if guard:
                    try: out.append(fs[g](v=w) if byname else fs[g](w))
                    except Stop: out.append("caught")
                else: out.append(fs[g](v=w) if byname else fs[g](w))
            if tail: g, w, byname = tail; seen.append(out); return jump(fs[g], v=w) if byname else jump(fs[g], w)
            return (i, v, tuple(out))
        body.__name__ = f"F{i}"
        return (fixtco if kinds[i] == "tco" else fix)(bottom=bot, memo=False)(body)
    seen = []
    for i in range(m): fs.append(mkf(i))
    def spec(i, v, path, byname):
        """A tail call stays on the path of its caller, as the caller's call has not returned."""
        while True:
            if (i, v) in path: return bv(f"F{i}", () if byname else (v,), {"v": v} if byname else {})
            if (i, v) == fault: raise Stop()
            path = path | {(i, v)}
            calls, tail, guard = plan[(i, v)]; out = []
            for g, w, bn in calls:
                if guard:
                    try: out.append(spec(g, w, path, bn))
                    except Stop: out.append("caught")
                else: out.append(spec(g, w, path, bn))
            if tail: wseen.append(out); i, v, byname = tail; continue
            return (i, v, tuple(out))
    for _ in range(3):
        i, v = r.randrange(m), r.randrange(n); wseen = []; del seen[:]
        want = outcome(lambda: spec(i, v, frozenset(), False)); got = outcome(lambda: fs[i](v))
        if want[0] == "exc": check(got[0] == "exc" and got[1] is Stop, "exception lost", got=got)
        else: check(got[0] == "ok", "raised", got=got, plan=plan, kinds=kinds); eq(got[1], want[1], "result", plan=plan, kinds=kinds, fault=fault, start=(i, v))
        eq(seen, wseen, "values seen along the way", plan=plan, kinds=kinds, start=(i, v))


if __name__ == "__main__":
    D.main()

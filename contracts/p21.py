"""P21: a curried or partially applied function gives the same result however applied.

The user's function is a real function of the given signature in a user program; the ordinary call to it (Python's own
rules, in the verifier's interpreter) is the oracle.  Argument and default values are arbitrary."""
from spec import *
from lib import *
import importlib.util, os
sp = importlib.util.spec_from_file_location("p20shapes", os.path.join(os.path.dirname(os.path.abspath(__file__)), "p20.py"))
_n = len(CONTRACTS)
P20 = importlib.util.module_from_spec(sp); sp.loader.exec_module(P20)
del CONTRACTS[_n:]
F, FU = "unpythonic.fun:", "unpythonic.funutil:"
TRUSTED = ["inspect.signature gives the parameters as written in the def; inspect.BoundArguments: the standard library's own code is executed", "functools.partial (pyvc/models.py)", "dispatch._format_callable returns some text (used in messages and docstrings only)", "typing.get_type_hints gives the annotations as written"]
ASSUMPTIONS = ["signature shapes as in P20; up to four argument groups (bounded in shape; values are arbitrary)", "values contain no promises (forcing them: P10)"]


def base(v):
    v.call("unpythonic.lazyutil:_init_module"); v.call("unpythonic.funutil:_init_module")
    v.p.summaries["unpythonic.dispatch:_format_callable"] = lambda p, a, kw: "signature"   # text for error messages and docstrings only
    v.p.summaries["unpythonic.lazyutil:force"] = lambda p, a, kw: a[0]


def setup(v, sh, text=None, **more):
    D = {f"d_{n}": v.obj(f"d_{n}") for n in "abck"}
    E = toU(md.inspect_global(v.p, "_empty"))
    for d in D.values(): v.assume(d.t != E)
    log = []
    out = v.obj("out")
    v.assume(z3.Not(z3.Function("py_callable", U, B)(out.t)))
    ps, ks = P20.names(sh)
    ns = ps + (["args"] if sh[3] else []) + ks + (["kw"] if sh[5] else [])
    def hit(p, a, kw): log.append(dict(zip(ns, a))); return out
    u = v.user(text or f"def f({P20.render(sh)}):\n    return hit({', '.join(ns)})\n", hit=Fn(hit, "hit"), **D, **more)
    return D, u, log, out


def same_call(v, got, want):
    v.oblige("parameters", z3.BoolVal(set(got) == set(want)))
    for k in want:
        if k == "kw":
            its = to_seq(v.p, v.method(got[k], "items")).items
            v.oblige("named leftovers", z3.BoolVal({a for a, _ in its} == set(want[k])))
            for a, b in its: v.same("named leftovers", b, want[k][a])
        elif k == "args": v.same("positional leftovers", v.items(got[k]), CSeq(want[k]))
        else: v.same("value of parameter", got[k], want[k])


def valid_calls(sh):
    """valid calls that give every required parameter, none twice; names that are not parameters only where allowed"""
    f = P20.oracle(sh, {f"d_{n}": 0 for n in "abck"})
    for n, kws in P20.calls(sh):
        try: f(*range(n), **{k: 0 for k in kws})
        except TypeError: continue
        yield n, kws


def splits(n, k):
    """ways to cut n positional arguments into k consecutive groups"""
    if k == 1: yield (n,); return
    for i in range(n + 1):
        for r in splits(n - i, k - 1): yield (i,) + r


def plan(v, sh, n, kws, full):
    """grouping: the required arguments in up to three groups, everything optional with or before the group that completes them"""
    ps, ks = P20.names(sh)
    npo, npk, nd, va, ko, vk = sh
    nreq = min(n, len(ps) - nd)
    req = [k for k in kws if k in ps[:len(ps) - nd] or (k == "k" and ko == "r")]
    opt = [k for k in kws if k not in req]
    if full:
        G = 1 + v.choose(3)
        cut = list(splits(nreq, G))
        cut = cut[v.choose(len(cut))]
        where = {k: v.choose(G) for k in req}
    else:   # all at once; one argument at a time, named ones last or first; two groups
        mode = v.choose(4 if nreq + len(req) > 1 else 2 if nreq + len(req) else 1)
        G = [1, nreq + len(req) + 1, nreq + len(req), 2][mode]
        off = len(req) if mode == 2 else 0
        cut = [nreq] if mode == 0 else [(nreq + 1) // 2, nreq // 2] if mode == 3 else [0] * off + [1] * nreq + [0] * (G - off - nreq)
        where = {k: 0 if mode == 0 else (nreq + j if mode == 1 else j if mode == 2 else 1 - j % 2) for j, k in enumerate(req)}
    last = max([i for i in range(G) if cut[i]] + list(where.values()), default=0)
    groups = [[list(range(sum(cut[:i]), sum(cut[:i + 1]))), [k for k in req if where[k] == i]] for i in range(last + 1)]
    groups[-1][0] += list(range(nreq, n))
    for k in opt: groups[v.choose(last + 1) if last and len(opt) == 1 else last][1].append(k)
    return groups


def grouping(v, g, N, full):
    base(v)
    S = P20.SHAPES[g::N]
    sh = S[v.choose(len(S))]
    D, u, log, out = setup(v, sh)
    cs = list(valid_calls(sh))
    n, kws = cs[v.choose(len(cs))]
    a, kw = P20.args_of(v, n, kws)
    want = P20.oracle(sh, D)(*a, **kw)
    groups = plan(v, sh, n, kws, full)
    c = v.total("curry", lambda: v.call(F + "curry", u.f))
    if (groups[0][0] or groups[0][1]) and (v.choose(2) if full else len(groups) % 2):
        c = v.total("curry with arguments", lambda: v.call(F + "curry", u.f, *[a[i] for i in groups[0][0]], **{k: kw[k] for k in groups[0][1]})); groups = groups[1:]
    for j, (pos, ns) in enumerate(groups):
        v.oblige("no call while required arguments are missing", z3.BoolVal(not log))
        v.oblige("stays curried", z3.BoolVal(v.call(F + "iscurried", c) is True))
        c = v.total("step", lambda: v.call(c, *[a[i] for i in pos], **{k: kw[k] for k in ns}))
    v.oblige("called exactly once", z3.BoolVal(len(log) == 1))
    same_call(v, log[0], want)
    v.same("the result of the ordinary call", c, out)


@contract(F + "curry", name=F + "curry (groupings)", variants=range(24))
def _(v, g): grouping(v, g, 24, False)


@contract(F + "curry", name=F + "curry (any grouping)", variants=range(96), tier="thorough")
def _(v, g): grouping(v, g, 96, True)


@contract(F + "curry", name=F + "curry (steps do not disturb each other)")
def _(v):
    """the same intermediate result used twice gives independent continuations"""
    base(v)
    D, u, log, out = setup(v, (0, 2, 0, 0, "r", 0))
    x, y, z, k = v.obj("x"), v.obj("y"), v.obj("z"), v.obj("k")
    c = v.total("curry", lambda: v.call(F + "curry", u.f))
    s = v.total("step", lambda: v.call(c, x))
    for b in (y, z, y): v.total("continue", lambda: v.call(s, b, k=k))
    s2 = v.total("step", lambda: v.call(s, k=k)); v.total("finish", lambda: v.call(s2, z)); v.total("again", lambda: v.call(c, z, y, k=x))
    v.oblige("five calls", z3.BoolVal(len(log) == 5))
    for e, w in zip(log, [(x, y, k), (x, z, k), (x, y, k), (x, z, k), (z, y, x)]):
        for n, val in zip("abk", w): v.same("value of parameter", e[n], val)


@contract(F + "curry", name=F + "curry (arguments beyond what the function accepts)", variants=[(r, i) for r in ("value", "callable", "values", "values callable", "none") for i in (False, True)])
def _(v, var):
    """extras go to the result if that is callable; otherwise returned along with it inside another curry context, refused at the top level"""
    how, inside = var
    base(v)
    a, x, y, z, w = (v.obj(n) for n in "axyzw")
    for q in (a, x, y, z, w): v.assume(z3.Not(z3.Function("py_callable", U, B)(q.t)))
    log, got, out = [], [], v.obj("out")
    def inner(p, args, kw): got.append((tuple(args), dict(kw))); return out
    u0 = v.user("def g(*args, **kw):\n    return inner(*args, **kw)\n", inner=Fn(inner, "inner"))
    res = {"value": lambda: w, "callable": lambda: u0.g, "values": lambda: v.call(FU + "Values", w, z, n=y), "values callable": lambda: v.call(FU + "Values", u0.g, z, n=y), "none": lambda: None}[how]()
    def hit(p, args, kw): log.append(args[0]); return res
    u = v.user("def f(a):\n    return hit(a)\n", hit=Fn(hit, "hit"))
    ne, named = v.choose(3), v.choose(2)
    if not ne and not named: return
    ex = [x, y][:ne]; nk = {"m": z} if named else {}
    c = v.total("curry", lambda: v.call(F + "curry", u.f))
    def go(): return v.call(c, a, *ex, **nk)
    if inside:
        dyn = v.get("unpythonic.dynassign:dyn")
        cm = v.method(dyn, "let", curry_context=ListObj(CSeq(("ctx",))))
        v.method(cm, "__enter__")
        kind, r = v.attempt(go)
        v.method(cm, "__exit__", None, None, None)
    else: kind, r = v.attempt(go)
    v.oblige("the function is called once, with what it accepts", z3.BoolVal(len(log) == 1)); v.same("its argument", log[0], a)
    if "callable" in how:
        v.oblige("passed on", z3.BoolVal(kind == "ok" and len(got) == 1))
        pos, kw = got[0]
        want = ([z] if how.startswith("values") else []) + ex
        wk = {**nk, **({"n": y} if how.startswith("values") else {})}
        v.oblige("all of them", z3.BoolVal(len(pos) == len(want) and set(kw) == set(wk)))
        for p1, p2 in zip(pos, want): v.same("in order", p1, p2)
        for q in wk: v.same("by name", kw[q], wk[q])
        v.same("its result", r, out)
    elif not inside:
        v.oblige("leftovers at the top level are an error", z3.BoolVal(kind == "raise")); v.exc_is("TypeError", r, TypeError)
    else:
        v.oblige("returned along with it", z3.BoolVal(kind == "ok" and isinstance(r, InstObj) and r.cls is v.get(FU + "Values")))
        first = {"value": [w], "none": [None], "values": [w, z]}[how]
        v.same("positional", v.p.getattr(r, "rets"), tuple(first + ex))
        wk = {**nk, **({"n": y} if how == "values" else {})}
        its = dict(to_seq(v.p, v.method(v.p.getattr(r, "kwrets"), "items")).items)
        v.oblige("named", z3.BoolVal(set(its) == set(wk)))
        for q in wk: v.same("named", its[q], wk[q])
    dynctx = v.p.getattr(v.get("unpythonic.dynassign:dyn"), "curry_context")
    v.same("curry context restored", v.items(dynctx), CSeq(()))


@contract(F + "curry", name=F + "curry (functions returning functions)", variants=[(1, 1), (1, 2), (2, 1), (2, 2)])
def _(v, ar):
    """chain of two functions with the given numbers of parameters: any grouping gives the same"""
    base(v)
    n1, n2 = ar
    n = n1 + n2
    args = [v.obj(f"x{i}") for i in range(n)]
    log, out = [], v.obj("out")
    P1, P2 = [f"p{i}" for i in range(n1)], [f"q{i}" for i in range(n2)]
    def hit(p, a, kw): log.append(tuple(a)); return out if len(a) == n else None
    u = v.user(f"def f({', '.join(P1)}):\n    hit({', '.join(P1)})\n    def g({', '.join(P2)}):\n        return hit({', '.join(P1 + P2)})\n    return curry(g)\n", hit=Fn(hit, "hit"), curry=v.get(F + "curry"))
    G = 1 + v.choose(3)
    ss = [s for s in splits(n, G) if s[-1] and all(s)]
    if not ss: return
    s = ss[v.choose(len(ss))]
    c = v.total("curry", lambda: v.call(F + "curry", u.f))
    i = 0
    for m in s: c = v.total("step", lambda: v.call(c, *args[i:i + m])); i += m
    v.same("result", c, out); v.oblige("each function once", z3.BoolVal(len(log) == 2)); v.same("arguments", log[0], tuple(args[:n1])); v.same("arguments", log[1], tuple(args))


@contract(F + "curry", name=F + "curry (degenerate)")
def _(v):
    base(v)
    how = v.choose(4)
    x, out, log = v.obj("x"), v.obj("out"), []
    if how == 0:
        v.assume(z3.Not(z3.Function("py_callable", U, B)(x.t))); v.same("not callable: as it is", v.total("curry", lambda: v.call(F + "curry", x)), x); return
    u = v.user("def f(a):\n    return hit(a)\ndef g():\n    return hit(0)\n", hit=Fn(lambda p, a, kw: (log.append(a[0]), out)[1], "hit"))
    if how == 1:
        c = v.call(F + "curry", u.f); v.oblige("already curried: the same", z3.BoolVal(v.total("curry", lambda: v.call(F + "curry", c)) is c)); v.same("and with arguments", v.total("call", lambda: v.call(F + "curry", c, x)), out)
    elif how == 2: v.same("no parameters: called by the empty call", v.total("call", lambda: v.call(v.call(F + "curry", u.g))), out); v.oblige("once", z3.BoolVal(len(log) == 1))
    else:
        c = v.call(F + "curry", u.f); c2 = v.total("empty step", lambda: v.call(c)); v.oblige("an empty group changes nothing", z3.BoolVal(not log)); v.same("then", v.total("call", lambda: v.call(c2, x)), out)


@contract(F + "curry", name=F + "curry (a curried call inside a curried call)")
def _(v):
    """the inner call's leftovers come back with its result; afterwards the outer context is gone again"""
    base(v)
    a, x, y, w = (v.obj(n) for n in "axyw")
    for q in (a, x, y, w): v.assume(z3.Not(z3.Function("py_callable", U, B)(q.t)))
    got, box = [], [None]
    u = v.user("def f(a):\n    return w\ndef outer(x):\n    note(cf()(x, y))\n    return y\n", w=w, y=y, note=Fn(lambda p, b, kw: got.append(b[0]), "note"), cf=Fn(lambda p, b, kw: box[0], "cf"))
    cf = v.total("curry", lambda: v.call(F + "curry", u.f))
    box[0] = cf
    co = v.total("curry", lambda: v.call(F + "curry", u.outer))
    if v.choose(2): v.same("outer result", v.total("outer", lambda: v.call(co, x)), y)
    else:
        # the inner error path does not leave a context behind, either
        v.must_raise("leftovers of the outer call", TypeError, lambda: v.call(co, x, a))
    v.oblige("inner call went through", z3.BoolVal(len(got) == 1))
    v.same("its result and leftovers", v.items(v.p.getattr(got[0], "rets")), CSeq((w, y)))
    v.must_raise("top level again", TypeError, lambda: v.call(cf, x, a))


@contract(F + "partial", variants=range(24))
def _(v, g): partials(v, g, 24, False)


@contract(F + "partial", name=F + "partial (any grouping)", variants=range(48), tier="thorough")
def _(v, g): partials(v, g, 48, True)


def partials(v, g, N, full):
    base(v)
    S = P20.SHAPES[g::N]
    sh = S[v.choose(len(S))]
    D, u, log, out = setup(v, sh)
    cs = list(valid_calls(sh))
    n, kws = cs[v.choose(len(cs))]
    a, kw = P20.args_of(v, n, kws)
    want = P20.oracle(sh, D)(*a, **kw)
    if full:
        i = v.choose(n + 1); j = i + v.choose(n - i + 1) if n > i else i
        lv = {k: v.choose(3) for k in kws[:2]}; lv.update({k: 2 for k in kws[2:]})
    else:
        m = v.choose(2)
        i, j = (n // 2, n) if m else (min(n, 1), min(n, 2))
        lv = {k: (q + m) % 3 for q, k in enumerate(kws)}
    old = v.obj("old")
    over = {k: kw[k] for k in kws if lv[k] == 0 and len(kws) == 1}
    def at(m): return {k: old if m == 0 and k in over else kw[k] for k in kws if lv[k] == m}
    p1 = v.total("partial", lambda: v.call(F + "partial", u.f, *a[:i], **at(0)))
    # a later keyword overrides an earlier one of the same name
    p2 = v.total("partial", lambda: v.call(F + "partial", p1, *a[i:j], **at(1)))
    v.oblige("not called yet", z3.BoolVal(not log))
    r = v.total("call", lambda: v.call(p2, *a[j:], **at(2), **over))
    v.oblige("once", z3.BoolVal(len(log) == 1)); same_call(v, log[0], want); v.same("result", r, out)


@contract(F + "partial", name=F + "partial, curry (annotated functions)", variants=[(w, t) for w in ("partial", "curry") for t in ("ok", "bad first", "bad second", "bad keyword")])
def _(v, var):
    """arguments given so far are checked against the annotations while some are missing"""
    way, t = var
    base(v)
    log, out = [], v.obj("out")
    u = v.user("def f(a: int, b: str, c):\n    return hit(a, b, c)\n", hit=Fn(lambda p, a, kw: (log.append(tuple(a)), out)[1], "hit"))
    x = v.int("x"); c = v.obj("c")
    mk = (lambda *a, **k: v.call(F + "partial", u.f, *a, **k)) if way == "partial" else (lambda *a, **k: v.call(v.call(F + "curry", u.f), *a, **k))
    if t == "ok":
        q = v.total("apply", lambda: mk(x)); q = v.total("apply", lambda: v.call(F + "partial", q, "s") if way == "partial" else v.call(q, "s"))
        v.oblige("not called yet", z3.BoolVal(not log)); v.same("result", v.total("call", lambda: v.call(q, c)), out); v.same("arguments", log[0], (x, "s", c))
    elif t == "bad first": v.must_raise("refused", TypeError, lambda: mk("s"))
    elif t == "bad second": v.must_raise("refused", TypeError, lambda: mk(x, x))
    else: v.must_raise("refused", TypeError, lambda: mk(b=x))
    if t != "ok": v.oblige("not called", z3.BoolVal(not log))

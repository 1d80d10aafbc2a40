from base import *
import inspect, functools
from unpythonic.arity import (getfunc, arities, arity_includes, required_kwargs, optional_kwargs, kwargs, resolve_bindings, resolve_bindings_partial, tuplify_bindings, UnknownArity)
D = Driver("P20")


def gensig(r, maxp=4):
    """-> list of (kind, name, hasdefault)"""
    npo, npk, nko = r.randint(0, 2), r.randint(0, 3), r.randint(0, 2)
    ps = []
    names = iter("abcdeghijk")
    started = False
    for i in range(npo + npk):
        started = started or r.random() < .35
        ps.append(("po" if i < npo else "pk", next(names), started))
    va = r.random() < .35
    ko = [("ko", next(names), r.random() < .5) for _ in range(nko)]
    vk = r.random() < .35
    return ps, va, ko, vk


def render(ps, va, ko, vk, annot=""):
    out = []
    for i, (k, n, d) in enumerate(ps):
        if k == "pk" and i > 0 and ps[i - 1][0] == "po": out.append("/")
        out.append(f"{n}={n.upper()!r}" if d else n)
    if ps and ps[-1][0] == "po": out.append("/")
    if va: out.append("*args")
    elif ko: out.append("*")
    out += [f"{n}={n.upper()!r}" if d else n for _, n, d in ko]
    if vk: out.append("**kw")
    return ", ".join(out)


def mkf(sig, method=None):
    ps, va, ko, vk = sig
    names = [p[1] for p in ps] + [p[1] for p in ko]
    ret = "{" + ", ".join(f"{n!r}: {n}" for n in names) + ("," if names else "") + ("'args': args, " if va else "") + ("'kw': kw" if vk else "") + "}"
    ns = {}
    exec(f"def f({render(*sig)}):\n    return {ret}\n", ns)
    return ns["f"]


def gencall(r, sig, maxpos=6):
    ps, va, ko, vk = sig
    npos = r.randint(0, min(maxpos, len(ps) + 2))
    args = [Item(("pos", i)) for i in range(npos)]
    cand = [p[1] for p in ps] + [p[1] for p in ko] + ["zz", "yy", "kw", "args"]
    ks = [n for n in cand if r.random() < .35]
    if r.random() < .5:  # bias to valid calls
        args = args[:len(ps)] if not va else args
        ks = [p[1] for p in ps[len(args):] if p[0] == "pk" and (not p[2] or r.random() < .5)] + [p[1] for p in ko if not p[2] or r.random() < .5] + (["zz"] if vk and r.random() < .5 else [])
    r.shuffle(ks)
    return args, {k: Item(("kw", k)) for k in ks}


@D.case(4000)
def bindings(r):
    sig = gensig(r); f = mkf(sig); args, kw = gencall(r, sig)
    want = outcome(lambda: f(*args, **kw))
    if any(p[0] == "po" and p[1] in kw for p in sig[0]) and sig[3]: return 0
    # names f, args, kwargs collide with the wrapper's own parameters only for 'f'
    if "f" in kw: return 0
    got = outcome(lambda: resolve_bindings(f, *args, **kw))
    desc = dict(sig=render(*sig), args=args, kw=kw)
    if want[0] == "exc":
        check(got[0] == "exc" and issubclass(got[1], TypeError), "bindings resolved for a call that fails", **desc); 
        p = outcome(lambda: resolve_bindings_partial(f, *args, **kw))
        wantp = outcome(lambda: inspect.signature(f).bind_partial(*args, **kw))
        eq(p[0], wantp[0], "partial resolution", **desc)
        return 1
    check(got[0] == "ok", "bindings not resolved for a valid call", got=got, **desc)
    ba = got[1]
    w = want[1]
    eq({k: canon(v) for k, v in ba.arguments.items()}, {k: canon(v) for k, v in w.items()}, "bindings differ from the call's own", **desc)
    same_val(outcome(lambda: f(*ba.args, **ba.kwargs)), want, desc)
    t1 = tuplify_bindings(ba); hash(t1)
    # another way of passing the same values: same canonical binding; a different value: different
    args2, kw2 = restyle(r, sig, w)
    t2 = tuplify_bindings(resolve_bindings(f, *args2, **kw2)); eq(t1, t2, "equal bindings have different canonical forms", args2=args2, kw2=kw2, **desc)
    if args or kw:
        a3, k3 = list(args), dict(kw)
        if args and (not kw or r.random() < .5): a3[r.randrange(len(a3))] = Item("changed")
        else: k3[r.choice(list(k3))] = Item("changed")
        check(tuplify_bindings(resolve_bindings(f, *a3, **k3)) != t1, "different bindings have the same canonical form", **desc)
    return 1


def canon(v):
    if isinstance(v, tuple): return tuple(map(id, v))
    if isinstance(v, dict): return {k: id(x) for k, x in v.items()}
    return v if isinstance(v, str) else id(v)


def same_val(a, b, desc):
    check(a[0] == b[0] == "ok" and {k: canon(v) for k, v in a[1].items()} == {k: canon(v) for k, v in b[1].items()}, "calling with the resolved bindings differs", got=a, want=b, **desc)


def restyle(r, sig, w):
    ps, va, ko, vk = sig
    extra = w.get("args", ())
    npo = len([p for p in ps if p[0] == "po"])
    k = len(ps) if extra else r.randint(npo, len(ps))
    args = [w[p[1]] for p in ps[:k]] + list(extra)
    ks = [(p[1], w[p[1]]) for p in ps[k:]] + [(p[1], w[p[1]]) for p in ko] + list(w.get("kw", {}).items())
    ks = [(n, v) for n, v in ks if not (isinstance(v, str) and r.random() < .5)]
    r.shuffle(ks)
    return args, dict(ks)


def spec_arity(f, sig):
    """By trial calls, with all required keywords given: the set of accepted positional counts."""
    ps, va, ko, vk = sig
    kw = {p[1]: 0 for p in ko if not p[2]}
    ok = []
    for n in range(0, 9):
        try: f(*[0] * n, **kw); ok.append(n)
        except TypeError: pass
    return ok


@D.case(800)
def arity_queries(r):
    sig = gensig(r); f = mkf(sig)
    ok = spec_arity(f, sig)
    def verify(g, ok, what):
        lo, hi = arities(g)
        eq([n for n in range(9) if lo <= n <= hi], ok, "arities", what=what, sig=render(*sig)); 
        for n in range(9): eq(bool(arity_includes(g, n)), n in ok, "arity_includes", n=n, what=what, sig=render(*sig))
        if ok and ok[-1] == 8: check(hi == float("inf"))
    verify(f, ok, "function")
    rk = {p[1] for p in sig[2] if not p[2]}; ok_ = {p[1] for p in sig[2] if p[2]}
    eq(required_kwargs(f), rk, "required_kwargs", sig=render(*sig)); eq(optional_kwargs(f), ok_, "optional_kwargs", sig=render(*sig)); eq(kwargs(f), (rk, ok_))
    # callables of other kinds: bound methods with explicit self
    ps, va, ko, vk = sig
    psm = [("pk", "self", False)] + [("pk", n, d) for k, n, d in ps]
    m = mkf((psm, va, ko, vk))
    C = type("C", (), {"m": m, "c": classmethod(m), "s": staticmethod(f), "__call__": m})
    ok2 = spec_arity(C().m, (ps, va, ko, vk))
    verify(C().m, ok2, "bound method"); verify(C.c, ok2, "classmethod via class"); verify(C().c, ok2, "classmethod via instance"); verify(C.s, ok, "staticmethod"); verify(C().s, ok, "staticmethod")
    verify(C.m, spec_arity(lambda *a, **k: m(*a, **k), (psm, va, ko, vk)), "function via class")
    eq(required_kwargs(C().m), rk); eq(optional_kwargs(C.c), ok_)
    verify(C(), ok2, "callable instance")
    I = type("I", (), {"__init__": lambda_init(m)})
    for g in (C().m, C.c, C.s, f):
        raw, kind = getfunc(g)
        check(not inspect.ismethod(raw)); eq(kind, {id(C.c): "classmethod"}.get(id(g), kind))
    eq(getfunc(C().m), (m, "instancemethod")); eq(getfunc(C.c), (m, "classmethod")); eq(getfunc(C.__dict__["s"]), (f, "staticmethod")); eq(getfunc(C.__dict__["c"]), (m, "classmethod")); eq(getfunc(f), (f, "function"))
    if not any(k == "po" for k, n, d in ps):
        pf = functools.partial(f, *[0] * min(1, len(ps)))
        lo, hi = arities(pf); okp = [n for n in range(8) if (n + min(1, len(ps))) in ok]
        eq([n for n in range(8) if lo <= n <= hi], okp, "partial", sig=render(*sig))
    args, kw = gencall(r, (ps, va, ko, vk))
    if not any(k in kw for k in ("f", "self")):
        o = C(); a = outcome(lambda: o.m(*args, **kw)); b = outcome(lambda: resolve_bindings(o.m, *args, **kw)); eq(a[0], b[0], "bindings of a bound method", sig=render(*sig), args=args, kw=kw)


def lambda_init(m):
    return m


INF = float("+infinity")
# positional counts of built-ins that do not tell their signature
PLAIN = {bool: (0, 1), bytes: (0, 3), filter: (2, 2), frozenset: (0, 1), int: (0, 2), map: (2, INF), range: (1, 3), slice: (1, 3), str: (0, 3), zip: (0, INF), bytearray: (0, 3), classmethod: (1, 1), dict: (0, 1),
         dir: (0, 1), getattr: (2, 3), iter: (1, 2), max: (1, INF), min: (1, INF), next: (1, 2), set: (0, 1), staticmethod: (1, 1), vars: (0, 1)}


def real_arity(f):
    if f in PLAIN: return PLAIN[f]
    try: ps = inspect.signature(f).parameters.values()
    except (ValueError, TypeError): return None
    k = [p for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    return sum(p.default is p.empty for p in k), INF if any(p.kind == p.VAR_POSITIONAL for p in ps) else len(k)


@D.case()
def builtins_(r):
    n = 0
    for f, good, bad in ((abs, [1], [0, 2]), (len, [1], [0, 2]), (isinstance, [2], [1, 3]), (pow, [2, 3], [1, 4]), (max, [1, 2, 5], [0]), (zip, [1, 2, 7], []), (range, [1, 2, 3], [0, 4]), (getattr, [2, 3], [1, 4]), (divmod, [2], [1, 3])):
        for k in good: check(arity_includes(f, k), "builtin arity", f=f, k=k); n += 1
        for k in bad: check(not arity_includes(f, k), "builtin arity", f=f, k=k); n += 1
    import operator
    for name in ("add", "sub", "mul", "lt", "le", "eq", "getitem", "contains", "mod", "xor"): eq(arities(getattr(operator, name)), (2, 2)); n += 1
    for name in ("neg", "pos", "not_", "truth", "abs", "invert", "index"): eq(arities(getattr(operator, name)), (1, 1)); n += 1
    import builtins
    for m in (builtins, operator):
        for name in dir(m):
            f = getattr(m, name)
            if not callable(f) or name in ("help", "exit", "quit", "copyright", "credits", "license", "type", "print", "super", "attrgetter", "itemgetter", "methodcaller") or isinstance(f, type) and issubclass(f, BaseException): continue
            if (want := real_arity(f)) is None: continue
            try: got = arities(f)
            except UnknownArity: continue
            eq(got, want, "arity of a built-in function", f=name); n += 1
    raises(UnknownArity, lambda: arities(42)); raises(UnknownArity, lambda: required_kwargs(42))
    return n


@D.case(60)
def generics(r):
    """The arities of a generic function span those of its implementations."""
    from unpythonic.dispatch import generic
    ms = [(r.randint(0, 3), r.randint(0, 2), r.random() < .2) for _ in range(r.randint(1, 4))]
    ns = {"generic": generic}; src = ""
    for a, b, va in ms:
        ps = [f"p{i}: int" for i in range(a)] + [f"q{i}: int = 0" for i in range(b)] + (["*rest: int"] if va else [])
        src += f"@generic\ndef g({', '.join(ps)}): pass\n"
    global _gcount
    try: _gcount += 1
    except NameError: _gcount = 1
    ns["__name__"] = f"p20_generics_{_gcount}"
    import linecache
    fn = f"<{ns['__name__']}>"; linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    exec(compile(src, fn, "exec"), ns)
    eq(tuple(arities(ns["g"])), (min(a for a, b, v in ms), max(INF if v else a + b for a, b, v in ms)), "arities of a generic function", src=src)


if __name__ == "__main__":
    D.main()

"""P20: argument binding and arity queries agree with Python's own calling rules.

The oracle is Python itself: for every signature shape the same signature is built as a real Python function in the
verifier's own interpreter, and the real call decides what should happen.  Argument and default values are arbitrary."""
from spec import *
from lib import *
A = "unpythonic.arity:"
TRUSTED = ["inspect.signature gives the parameters as written in the def; inspect.Signature.bind, Parameter, BoundArguments: the standard library's own code is executed"]
ASSUMPTIONS = ["signature shapes are enumerated: up to one positional-only and two positional parameters with any number of them optional, *args, one keyword-only parameter, **kwargs, in every combination; calls with up to one positional argument too many and every set of names (bounded in shape; values are arbitrary)",
               "calls passing a positional-only parameter's name as a keyword to a function with **kwargs are excluded (inspect.Signature.bind of Python 3.12 itself rejects some of them)"]


def shapes():
    for npo in (0, 1):
        for npk in (0, 1, 2):
            for nd in range(npo + npk + 1):
                for va in (0, 1):
                    for ko in ("", "r", "o"):
                        for vk in (0, 1): yield (npo, npk, nd, va, ko, vk)


SHAPES = list(shapes())


def names(sh):
    npo, npk, nd, va, ko, vk = sh
    ps = list("abc"[:npo + npk])
    return ps, (["k"] if ko else [])


def render(sh, first=""):
    npo, npk, nd, va, ko, vk = sh
    ps, ks = names(sh)
    out = [first] if first else []
    for i, n in enumerate(ps):
        out.append(n + (f"=d_{n}" if i >= len(ps) - nd else ""))
        if i == npo - 1: out.append("/")
    if va: out.append("*args")
    elif ks: out.append("*")
    for n in ks: out.append(n + ("=d_k" if ko == "o" else ""))
    if vk: out.append("**kw")
    return ", ".join(out)


def ret(sh):
    ps, ks = names(sh)
    return "{" + ", ".join(f"{n!r}: {n}" for n in ps + (["args"] if sh[3] else []) + ks + (["kw"] if sh[5] else [])) + "}"


def oracle(sh, D):
    ns = dict(D)
    exec(f"def f({render(sh)}):\n    return {ret(sh)}\n", ns)
    return ns["f"]


def calls(sh):
    npo, npk, nd, va, ko, vk = sh
    ps, ks = names(sh)
    cand = ps + ks + ["z"]
    for n in range(len(ps) + 2):
        for m in range(2 ** len(cand)):
            kws = [c for i, c in enumerate(cand) if m >> i & 1]
            if vk and npo and "a" in kws: continue
            yield n, kws


def setup(v, sh, text=None):
    D = {f"d_{n}": v.obj(f"d_{n}") for n in "abck"}
    E = toU(md.inspect_global(v.p, "_empty"))
    for d in D.values(): v.assume(d.t != E)
    u = v.user(text or f"def f({render(sh)}):\n    return {ret(sh)}\n", **D)
    return D, u


def args_of(v, n, kws, t=""):
    return [v.obj(f"p{t}{i}") for i in range(n)], {k: v.obj(f"k{t}_{k}") for k in kws}


def same_binding(v, got, want):
    """BoundArguments.arguments against the mapping the real call gives"""
    items = to_seq(v.p, v.method(got, "items")).items
    v.oblige("parameters bound", z3.BoolVal([k for k, _ in items] == list(want)))
    for k, x in items:
        if k not in want: continue
        if k == "kw":
            its = to_seq(v.p, v.method(x, "items")).items
            v.oblige("**kwargs", z3.BoolVal({a for a, _ in its} == set(want[k])))
            for a, b in its: v.same("**kwargs", b, want[k][a])
        else: v.same("value bound", x, want[k])


GROUPS = [SHAPES[i::20] for i in range(20)]


@contract(A + "resolve_bindings", variants=range(20))
def _(v, g):
    sh = GROUPS[g][v.choose(len(GROUPS[g]))]
    D, u = setup(v, sh)
    cs = list(calls(sh))
    n, kws = cs[v.choose(len(cs))]
    a, kw = args_of(v, n, kws)
    try: want = oracle(sh, D)(*a, **kw)
    except TypeError: want = None
    k, r = v.attempt(lambda: v.call(A + "resolve_bindings", u.f, *a, **kw))
    if want is None:
        v.oblige("fails when the call would fail", z3.BoolVal(k == "raise")); v.exc_is("TypeError", r, TypeError); return
    v.oblige("succeeds when the call would", z3.BoolVal(k == "ok"))
    same_binding(v, v.p.getattr(r, "arguments"), want)


@contract(A + "tuplify_bindings", variants=range(20))
def _(v, g):
    """two calls have the same canonical binding exactly when they bind the same values"""
    sh = GROUPS[g][v.choose(len(GROUPS[g]))]
    D, u = setup(v, sh)
    f = oracle(sh, D)
    def ok(n, kws):
        try: f(*range(n), **{k: 0 for k in kws}); return True
        except TypeError: return False
    cs = [c for c in calls(sh) if ok(*c)]
    i = v.choose(len(cs)); j = (i + 1 + v.choose(2)) % len(cs)
    (n1, k1), (n2, k2) = cs[i], cs[j]
    a1, w1 = args_of(v, n1, k1); a2, w2 = args_of(v, n2, k2[::-1], "'")
    b1, b2 = f(*a1, **w1), f(*a2, **w2)
    ts = []
    for a, w in ((a1, w1), (a2, w2)): ts.append(v.total("canonical", lambda: v.call(A + "tuplify_bindings", v.call(A + "resolve_bindings", u.f, *a, **w))))
    eqs = []
    def E(x, y): return z3.Or(x.t == y.t, md.eqU(x.t, y.t))
    for k in b1:
        if k == "args": eqs.append(z3.And([z3.BoolVal(len(b1[k]) == len(b2[k]))] + [E(x, y) for x, y in zip(b1[k], b2[k])]))
        elif k == "kw": eqs.append(z3.And([z3.BoolVal(set(b1[k]) == set(b2[k]))] + [E(b1[k][x], b2[k][x]) for x in b1[k] if x in b2[k]]))
        else: eqs.append(E(b1[k], b2[k]))
    v.oblige("equal exactly when the same values are bound", v.eq(ts[0], ts[1]) == z3.And(eqs + [z3.BoolVal(True)]))


@contract(A + "resolve_bindings_partial", variants=range(20))
def _(v, g):
    """what has been given is bound as the eventual call would bind it; fails iff no further keyword or default could make the call valid"""
    sh = GROUPS[g][v.choose(len(GROUPS[g]))]
    D, u = setup(v, sh)
    npo, npk, nd, va, ko, vk = sh
    ps, ks = names(sh)
    cs = list(calls(sh))
    n, kws = cs[v.choose(len(cs))]
    a, kw = args_of(v, n, kws)
    # the same call with every parameter optional: Python's own judgement of the arguments given so far
    full = (npo, npk, npo + npk, va, "o" if ko else "", vk)
    missing = object()
    try: want = oracle(full, {f"d_{x}": missing for x in "abck"})(*a, **kw)
    except TypeError: want = None
    k, r = v.attempt(lambda: v.call(A + "resolve_bindings_partial", u.f, *a, **kw))
    if want is None: v.oblige("fails when no call could bind these", z3.BoolVal(k == "raise")); v.exc_is("TypeError", r, TypeError); return
    v.oblige("succeeds when some call could", z3.BoolVal(k == "ok"))
    opt = set(ps[len(ps) - nd:]) | ({"k"} if ko == "o" else set())
    w2 = {}
    for x in want:
        if want[x] is missing:
            if x in opt: w2[x] = D["d_" + x]
        else: w2[x] = want[x]
    got = {q[0] for q in to_seq(v.p, v.method(v.p.getattr(r, "arguments"), "items")).items}
    same_binding(v, v.p.getattr(r, "arguments"), w2)


FORMS = {"function": ("", "def f({s}):\n    return 1\n", "f"), "method": ("self", "class K:\n    def m({s}):\n        return 1\nf = K().m\n", "f"),
         "classmethod": ("cls", "class K:\n    @classmethod\n    def m({s}):\n        return 1\nf = K.m\n", "f"), "staticmethod": ("", "class K:\n    @staticmethod\n    def m({s}):\n        return 1\nf = K.m\n", "f"),
         "class": ("self", "class f:\n    def __init__({s}):\n        pass\n", "f"), "starmethod": ("", "class K:\n    def m({s}):\n        return 1\nf = K().m\n", "f"), "callable": ("self", "class K:\n    def __call__({s}):\n        return 1\nf = K()\n", "f")}


@contract(A + "arities", name=A + "arities, arity_includes, required_kwargs, optional_kwargs, kwargs", variants=list(FORMS))
def _(v, form):
    first, text, _ = FORMS[form]
    cand = [s for s in SHAPES if not (first and s[0])]        # self positional-only as well is not needed
    if form == "starmethod": cand = [s for s in cand if s[0] == s[1] == 0 and s[3]]       # no parameter of its own for the instance
    sh = cand[v.choose(len(cand))]
    D, u = setup(v, sh, text.format(s=render(sh, first)))
    npo, npk, nd, va, ko, vk = sh
    f = u.f
    lo, hi = v.items(v.total("arities", lambda: v.call(A + "arities", f))).items
    v.oblige("positional counts", z3.BoolVal(lo == npo + npk - nd and (hi == float("inf") if va else hi == npo + npk)))
    for n in range(npo + npk + 2):
        v.oblige("inclusion", v.truthy(v.total("includes", lambda: v.call(A + "arity_includes", f, n))) == z3.BoolVal(npo + npk - nd <= n and (va or n <= npo + npk)))
    N = v.int("n"); v.assume(iz(N) >= 0)
    v.oblige("inclusion for any count", v.truthy(v.total("includes", lambda: v.call(A + "arity_includes", f, N))) == z3.And(iz(N) >= npo + npk - nd, z3.BoolVal(True) if va else iz(N) <= npo + npk))
    def setof(x):
        if isinstance(x, SetObj): return set(x.entries)
        raise Unsupported("result is not a set")
    rq, op = v.total("required", lambda: v.call(A + "required_kwargs", f)), v.total("optional", lambda: v.call(A + "optional_kwargs", f))
    v.oblige("keyword-only names", z3.BoolVal(setof(rq) == ({"k"} if ko == "r" else set()) and setof(op) == ({"k"} if ko == "o" else set())))
    r2, o2 = v.items(v.total("kwargs", lambda: v.call(A + "kwargs", f))).items
    v.oblige("both", z3.BoolVal(setof(r2) == setof(rq) and setof(o2) == setof(op)))

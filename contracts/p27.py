"""P27: integer partitions.

partition_int_custom is recursive: its contract is one step of the recursion, with the recursive call replaced by the
contract itself.  Every partition of n into the allowed parts starts with some allowed k <= n, and the rest is a
partition of n - k into the allowed parts that fit; so by induction on n the result is every partition, each once."""
from spec import *
from lib import *
X = "unpythonic.numutil:"
TRUSTED = ["range, takewhile, filter (pyvc/models.py)"]
ASSUMPTIONS = ["partition_int_custom: any n, up to three distinct components of any size; the recursive call yields up to two partitions on each path (one, with three components)",
               "the induction over n that joins the steps is by hand (one line, above)"]


@contract(X + "partition_int", variants=["upper", "no upper"])
def _(v, var):
    """any n, any bounds: the right components are handed on, or a value error"""
    n, lo, up = v.int("n"), v.int("lo"), v.int("up")
    got, mark = [], v.inst()
    def custom(p, a, kw):
        a = list(a) + [kw[k] for k in ("n", "components")[len(a):]]
        got.append((a[0], md.to_seq(p, a[1]))); return mark
    v.p.summaries[X + "partition_int_custom"] = custom
    k, r = v.attempt(lambda: v.call(X + "partition_int", n, lo, up) if var == "upper" else v.call(X + "partition_int", n, lower=lo))
    u = up.t if var == "upper" else n.t
    ok = z3.And(n.t >= 1, lo.t >= 1, lo.t <= u, u <= n.t)
    v.oblige("an error exactly when the bounds make no sense", z3.BoolVal(k == "ok") == ok)
    if k != "ok": v.exc_is("value error", r, ValueError); return
    if r is not mark or len(got) != 1: raise Unsupported("not by partition_int_custom")
    v.same("n", got[0][0], n)
    s = got[0][1]
    v.oblige("as many components as numbers allowed", iz(slen(s)) == u - lo.t + 1)
    i = z3.FreshInt("i"); v.assume(z3.And(i >= 0, i < iz(slen(s))))
    if v.case(iz(sat(s, z3.IntVal(0))) == u): v.oblige("each number allowed", iz(sat(s, i)) == u - i)
    else: v.oblige("each number allowed", iz(sat(s, i)) == lo.t + i)


@contract(X + "partition_int", name=X + "partition_int (wrong types)", variants=["partition_int", "partition_int_triangular"])
def _(v, f):
    bad = ("3", 3.0, None)[v.choose(3)]
    j = v.choose(3)
    args = [v.int("n"), v.int("lo"), v.int("up")]; args[j] = bad
    if j == 2 and bad is None: return
    v.must_raise("type error", TypeError, lambda: v.call(X + f, *args))


@contract(X + "partition_int_triangular", name=X + "partition_int_triangular (bounds)")
def _(v):
    n, lo, up = v.int("n"), v.int("lo"), v.int("up")
    u = up if v.choose(2) else None
    ut = up.t if u is not None else n.t
    v.assume(z3.Not(z3.And(n.t >= 1, lo.t >= 1, lo.t <= ut, ut <= n.t)))
    v.must_raise("value error", ValueError, lambda: v.call(X + "partition_int_triangular", n, lo, u))


@contract(X + "partition_int_custom", name=X + "partition_int_custom (one step of the recursion)", variants=[0, 1, 2, 3])
def _(v, m):
    v.c.rounds = 12
    n = v.int("n"); ks = [v.int(f"k{j}") for j in range(m)]
    v.assume(z3.And([n.t >= 1] + [z3.And(k.t >= 1, k.t <= n.t) for k in ks] + ([z3.Distinct([k.t for k in ks])] if m > 1 else [])))
    calls, state = [], HObj(outer=True)
    parts = lambda j: [(v.int(f"a{j}"),), (v.int(f"b{j}"), v.int(f"c{j}"))][:v.choose(3) if m < 3 else 1]
    plan = {}
    def custom(p, a, kw):
        if not calls and state.get("outer"):
            state.set("outer", False)
            s = v.p.summaries.pop(X + "partition_int_custom")
            try: return p.call(v.get(X + "partition_int_custom"), a, kw)
            finally: v.p.summaries[X + "partition_int_custom"] = s
        a = list(a) + [kw[k] for k in ("n", "components")[len(a):]]
        cs = md.to_seq(p, a[1])
        if not isinstance(cs, CSeq): raise Unsupported("components of unknown number")
        cs = list(cs.xs if hasattr(cs, "xs") else cs.items)
        for x in cs: v.oblige("the rest uses parts that are allowed and fit", z3.And(z3.Or([iz(x) == k.t for k in ks]), iz(x) <= iz(a[0])))
        v.oblige("something is left, smaller", z3.And(iz(a[0]) >= 1, iz(a[0]) < n.t))
        for k in ks: v.oblige("every allowed part that fits", z3.Implies(k.t <= iz(a[0]), z3.Or([iz(x) == k.t for x in cs])))
        if len(cs) > 1: v.oblige("each once", z3.Distinct([iz(x) for x in cs]))
        ps = parts(len(calls)); calls.append((iz(a[0]), ps))
        return md.py_iter(p, tuple(ps))
    v.p.summaries[X + "partition_int_custom"] = custom
    it = v.total("call", lambda: v.call(X + "partition_int_custom", n, tuple(ks)))
    it = md.py_iter(v.p, it)
    out = []
    for _ in range(2 * m + 2):
        k, z = v.next(it)
        if k == "end": break
        out.append(z)
    else: v.oblige("an end", z3.BoolVal(False))
    # what is expected: each component k, alone if it is n, else before each partition of n - k
    fit = [k.t == n.t for k in ks]
    lens = [md.py_len(v.p, z) for z in out]
    if not calls and v.c.branch(z3.Or([k.t < n.t for k in ks])): raise Unsupported("not recursive through the function itself")
    for k in ks:
        v.oblige("the whole of n, alone, exactly once", z3.Implies(k.t == n.t, z3.Sum([z3.If(iz(v.p.getitem(z, 0)) == n.t, 1, 0) for z, l in zip(out, lens) if l == 1] + [z3.IntVal(0)]) == 1))
        v.oblige("each smaller part: the rest partitioned once", z3.Implies(k.t < n.t, z3.Sum([z3.If(r == n.t - k.t, 1, 0) for r, _ in calls] + [z3.IntVal(0)]) == 1))
    def found(form):
        return z3.And([z3.BoolVal(True)] + [z3.Or([z3.And([iz(v.p.getitem(z, i)) == w[i] for i in range(len(w))]) for z, l in zip(out, lens) if l == len(w)] or [z3.BoolVal(False)])
                      for w in [form((n.t - r,), tuple(iz(x) for x in q)) for r, ps in calls for q in ps]])
    v.oblige("the part before (or after) each partition of the rest", z3.Or(found(lambda k, q: k + q), found(lambda k, q: q + k)))
    alone = z3.Sum([z3.If(f, 1, 0) for f in fit] + [z3.IntVal(0)])
    v.oblige("nothing else", z3.IntVal(len(out)) == alone + sum(len(ps) for r, ps in calls))


@contract(X + "partition_int_custom", name=X + "partition_int_custom (arguments)", variants=[0, 1, 2, 3])
def _(v, m):
    v.c.rounds = 12
    n = v.int("n"); ks = [v.int(f"k{j}") for j in range(m)]
    if v.choose(2):
        bad = ("3", 2.0, None)[v.choose(3)]
        j = v.choose(m + 1)
        args = [n] + ks; args[j] = bad
        if j: v.assume(n.t >= 1)
        v.must_raise("type error", TypeError, lambda: v.call(X + "partition_int_custom", args[0], tuple(args[1:]))); return
    v.assume(z3.Or([n.t < 1] + [z3.Or(k.t < 1, k.t > n.t) for k in ks]))
    v.must_raise("value error", ValueError, lambda: v.call(X + "partition_int_custom", n, tuple(ks)))

"""P31: tail-chained generators yield the concatenation of the links, lazily, in constant stack."""
from spec import *
from lib import *
G = "unpythonic.gtco:"
TRUSTED = ["the links are opaque generators: each yields its items and then returns the next link (plain or wrapped by @gtrampolined), the last one its final value"]


class LinkIter(Stream):
    """link k of the chain: delivers out[off(k):off(k+1)] (pos is absolute), then returns retval"""
    def __init__(self, lo, hi, out, end=None, fail=None):
        super().__init__(pos=mki(lo))
        self.hi, self.out, self.end, self.fail, self.retval = hi, out, end, fail, None
        Ctx.cur.bounds.append(hi)
    def nxt(self, p):
        pos = iz(self.get("pos"))
        if p.c.branch(pos < self.hi):
            self.set("pos", mki(pos + 1))
            return self.out(pos)
        if self.fail is not None: raise PyRaise(self.fail)
        if self.end is not None: self.retval = self.end()
        raise Stop


def chain(v, tail):
    """links g(0) .. g(N-1), N >= 1 unbounded, of arbitrary lengths"""
    c = v.c
    N = z3.Int("N"); c.assume(N >= 1); c.bounds.append(N)
    off = z3.Function("off", I, I); g = z3.Function("link", I, U); wrapped = z3.Function("wrapped", I, B)
    o = z3.Function("out", I, U); out = lambda i: SU(o(i))
    idx = z3.Function("idx", U, I)
    T = z3.Const("final", U)
    tn = z3.Int("tail_len"); c.assume(tn >= 0)
    c.assume(z3.And(off(0) == 0, z3.Not(md.isgen(T))))
    c.recdef(lambda k: z3.Implies(k >= 0, z3.And(off(k + 1) >= off(k), md.isgen(g(k)), idx(g(k)) == k, g(k) != T, z3.Implies(k <= N, off(k) <= off(N)))))   # (the last conjunct: by induction)
    c.index(z3.IntVal(0), N); c.bounds.append(N - 1)
    c.hints.append(lambda i: mki(off(i))); c.hints.append(lambda i: SU(g(i)))
    st = HObj(k=0, done=0, phase="links")                 # k: links begun; done: links finished
    depths = []
    def it(p, x):
        if v.c.valid(x.t == T)[0] == "yes":
            if tail == "not_iterable": throw(TypeError, "not iterable")
            st.set("phase", "tail")
            return LinkIter(off(N), off(N) + tn, out)
        k = z3.simplify(idx(x.t))
        done = iz(st.get("done"))
        c.index(done)
        if st.get("phase") == "tail": v.oblige("only an exhausted generator follows the tail", k < done)
        if p.c.branch(k < done):           # an exhausted generator
            return LinkIter(z3.IntVal(0), z3.IntVal(0), out)
        v.oblige("links in order", z3.And(x.t == g(done), done < N))
        st.set("k", mki(done + 1))
        depths.append(v.c.depth)
        v.oblige("constant stack depth", z3.BoolVal(depths[0] == depths[-1]))
        def end():
            st.set("done", mki(done + 1))
            c.index(done + 1)
            if p.c.branch(done + 1 < N):
                n = SU(g(done + 1))
                if p.c.branch(wrapped(done + 1)): return v.call(G + "_TrampolinedGenerator", n)
                return n
            return SU(T)
        fail = exc if tail == "raise" and p.c.branch(done + 1 == N) else None
        return LinkIter(off(done), off(done + 1), out, end, fail)
    exc = mkexc(ValueError)
    c.x.iter_ok = it
    total = off(N) + tn if tail == "iterable" else off(N)
    c.bounds.append(total)
    return SU(g(0)), SSeq(total, out), st, N, SU(T), exc, off


@contract(G + "gtco", variants=["not_iterable", "iterable"])
def _(v, tail):
    g0, spec, st, N, T, exc, off = chain(v, tail)
    v.assume(spec.n >= 0)
    how = v.choose(3)
    if how == 0: s = v.call(G + "gtco", g0)
    elif how == 1: s = v.call(G + "_TrampolinedGenerator", g0)
    else: s = v.call(v.call(G + "gtrampolined", Fn(lambda p, a, kw: g0, "gfunc")), 1, 2)
    v.oblige("nothing runs before the first item is asked for", iz(st.get("k")) == 0)
    lazy = lambda k: (v.c.index(iz(st.get("done"))), v.oblige("no link begins before its items are due", z3.Implies(iz(st.get("done")) < iz(st.get("k")), off(iz(st.get("done"))) <= k)))
    v.stream("items", s, spec, at_yield=lazy)
    v.oblige("every link ran", iz(st.get("done")) == N)


@contract(G + "gtco", name=G + "gtco (a link raises)")
def _(v):
    g0, spec, st, N, T, exc, off = chain(v, "raise")
    it = v.p.models.py_iter(v.p, v.call(G + "gtco", g0))
    g = HObj(k=0)
    def body(x):
        k = iz(g.get("k")); v.oblige("no extra item", k < spec.n); v.same("item", x, sat(spec, k)); g.set("k", mki(k + 1)); return None
        yield
    try:
        v.p.run_plain(v.p.drive(it, body, StreamNode, None))
        v.oblige("the exception reaches the consumer", False)
    except PyRaise as e:
        v.same("the same exception", e.exc, exc)
        v.oblige("after all the items before it", iz(g.get("k")) == spec.n)
        v.oblige("in the link that raised", iz(st.get("done")) == N - 1)


@contract(G + "gtrampolined")
def _(v):
    a, b = v.obj("a"), v.obj("b")
    g0, e = SU(z3.Const("g0", U)), mkexc(ValueError)
    seen = []
    def gf(p, args, kw):
        seen.append(1)
        v.oblige("arguments", z3.BoolVal(len(args) == 1 and set(kw) == {"k"})); v.same("positional argument", args[0], a); v.same("keyword argument", kw["k"], b)
        return g0
    x = v.call(v.call(G + "gtrampolined", Fn(gf, "gf")), a, k=b)
    v.oblige("the generator function is called once", z3.BoolVal(len(seen) == 1))
    v.same("wraps its generator", v.p.getattr(x, "g"), g0)

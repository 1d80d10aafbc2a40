"""Contracts of library functions in the form callers see them (each is proved for the function's own body
by the contract of the same name; a caller under contract is checked against these, not against the body)."""
from spec import *


class GenSum(Stream):
    """contract of a generator function: yields the items of spec; by the k-th item it has taken cons(k) items of its
    input, and at the end cons_end()"""
    def __init__(self, it, spec, cons, cons_end):
        super().__init__(pos=0, taken=0)
        self.it, self.spec, self.cons, self.cons_end = it, spec, cons, cons_end
        c = Ctx.cur
        if isinstance(spec, SSeq):
            c.sources.append((lambda i: sat(spec, i), (self.uid, "pos")))
            if not spec.inf: c.bounds.append(spec.n)
    def take_to(self, p, t):
        d = z3.simplify(t - iz(self.get("taken")))
        self.it.advance(p, d)
        self.set("taken", mki(t))
    def nxt(self, p):
        pos = iz(self.get("pos"))
        if getattr(self.spec, "inf", False) or p.c.branch(pos < iz(slen(self.spec))):
            self.take_to(p, self.cons(pos + 1))
            self.set("pos", mki(pos + 1))
            return sat(self.spec, pos)
        self.take_to(p, self.cons_end())
        raise Stop
    def rest(self, p):
        s = self.spec
        if getattr(s, "inf", False): return sslice(s, self.get("pos"), None)
        return sslice(s, mki(zmin(self.get("pos"), slen(s))), None)
    def exhaust(self, p):
        if getattr(self.spec, "inf", False): raise Unsupported("draining an infinite stream does not terminate")
        self.set("pos", mki(zmax(self.get("pos"), slen(self.spec))))
        self.take_to(p, self.cons_end())
    def advance(self, p, k):
        s = self.spec
        pos = iz(self.get("pos"))
        new = pos + k if getattr(s, "inf", False) else zmin(mki(pos + k), slen(s))
        ended = z3.BoolVal(False) if getattr(s, "inf", False) else pos + k > iz(slen(s))
        self.set("pos", mki(new))
        self.take_to(p, z3.simplify(z3.If(ended, self.cons_end(), z3.If(new > 0, self.cons(new), z3.IntVal(0)))))


def closed(p, x):
    """(iterator, closed form of what it still yields)"""
    i = py_iter(p, x)
    r = stream_rest(p, i)
    if r is None: raise Unsupported("callee contract: input without closed form")
    return i, r


def sum_lastn(p, a, kw):
    n, x = a
    i, r = closed(p, x)
    if getattr(r, "inf", False): raise Unsupported("lastn of an infinite input")
    L = iz(slen(r))
    m = zmin(n, mki(L))
    return GenSum(i, sslice(r, mki(L - m), None), lambda k: L, lambda: L)


def sum_butlastn(p, a, kw):
    n, x = a
    i, r = closed(p, x)
    if getattr(r, "inf", False): return GenSum(i, r, lambda k: k + iz(n), None)
    L = iz(slen(r))
    m = zmax(mki(L - iz(n)), 0)
    return GenSum(i, sslice(r, 0, mki(m)), lambda k: k + iz(n), lambda: L)


def sum_last(p, a, kw):
    d = kw.get("default")
    i, r = closed(p, a[0])
    if getattr(r, "inf", False): raise Unsupported("last of an infinite input")
    stream_exhaust(p, i)
    n = iz(slen(r))
    return sat(r, n - 1) if p.c.branch(n > 0) else d


IT = {"unpythonic.it:lastn": sum_lastn, "unpythonic.it:butlastn": sum_butlastn, "unpythonic.it:last": sum_last}


def use(v, *names, table=IT):
    for n in names:
        q = next(k for k in table if k.endswith(":" + n) or k == n)
        v.p.summaries[q] = table[q]

from base import *
import operator, math
from fractions import Fraction as F
from itertools import islice, count
import importlib
ms = importlib.import_module("unpythonic.mathseq")
from unpythonic.mathseq import *
from unpythonic.mathseq import slt, sle, seq, sne, sge, sgt
D = Driver("P26")


def tk(n, it): return list(islice(iter(it), n))


def close(a, b):
    if a == b: return True
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def same_terms(got, want, msg, exact=True, **ctx):
    ok = len(got) == len(want) and all((g == w) if exact else close(g, w) for g, w in zip(got, want))
    if not ok: fail(msg, got=got, want=want, **ctx)


@D.case(1500)
def arithmetic(r):
    a0, d = r.choice([(r.randint(-50, 50), r.randint(-20, 20)), (F(r.randint(-30, 30), r.randint(1, 7)), F(r.randint(-20, 20), r.randint(1, 7))), (r.randint(-8, 8) / 4, r.randint(-8, 8) / 8)])
    term = lambda j: a0 + j * d
    m = r.randint(1 if d == 0 else 2, 6)
    spec = [term(j) for j in range(m)]
    mode = r.randrange(4)
    if mode == 0: same_terms(tk(15, s(*spec, ...)), [term(j) for j in range(15)], "arithmetic/constant", spec=spec)
    elif mode == 1 and d != 0:
        n = r.randint(1, 30)
        got = outcome(lambda: list(s(*spec, ..., term(n))))
        check(got[0] == "ok", "valid end refused", spec=spec, end=term(n)); same_terms(got[1], [term(j) for j in range(n + 1)], "finite arithmetic", spec=spec, end=term(n))
    elif mode == 2 and d != 0:
        n = r.randint(-5, 25); off = r.choice([d / 2 if not isinstance(d, int) else F(d, 2), d / 3 if isinstance(d, float) else F(d) / 3])
        end = term(n) + off
        if r.random() < .3: end = term(-r.randint(0, 9))
        raises(SyntaxError, lambda: s(*spec, ..., end), "end outside the sequence accepted", spec=spec, end=end)
    elif mode == 3:
        same_terms(list(s(*spec)), spec, "explicit terms"); raises(SyntaxError, lambda: s(a0, ..., a0), "constant with an end")
        if len(spec) >= 3:
            bad = list(spec); i = r.randrange(len(bad)); bad[i] = bad[i] + r.choice([1, -1, 3]) * 1000003
            g = outcome(lambda: tk(len(bad), s(*bad, ...)))
            if g[0] == "ok": same_terms(g[1], bad, "the sequence does not begin with the given terms", exact=False, spec=bad)
            else: check(issubclass(g[1], SyntaxError), "wrong error", got=g)


@D.case(1500)
def geometric(r):
    exact = True
    k = r.randrange(3)
    if k == 0: a0, q = r.choice([1, 2, 3, -1, -2, 5, 7]), r.choice([2, 3, 5, 7, 10, -2, -3, -5, -7, -10])
    elif k == 1: a0, q = F(r.choice([1, 3, -5]), r.randint(1, 4)), F(r.choice([1, 2, 3, -1, -2, -3, 5]), r.choice([4, 7]))
    else: a0, q = r.choice([1.0, 64, 100, -3.5]), r.choice([.5, .25, -.5, .1, 1.5]); exact = False
    if abs(q) == 1: return 0
    term = lambda j: a0 * q ** j
    m = r.randint(3, 5); spec = [term(j) for j in range(m)]
    if r.random() < .4: same_terms(tk(9, s(*spec, ...)), [term(j) for j in range(9)], "geometric", exact, spec=spec)
    else:
        n = r.randint(1, 6)
        got = outcome(lambda: list(s(*spec, ..., term(n))))
        check(got[0] == "ok", "valid end refused", spec=spec, end=term(n), got=got)
        # with rational terms, logarithms are involved; the terms must still be the right ones
        same_terms(got[1], [term(j) for j in range(n + 1)], "finite geometric", exact, spec=spec, end=term(n))
        bad = r.choice([-term(n), term(n) * (F(11, 10) if isinstance(q, F) else 1.1), term(0) if False else -term(n)])
        raises(SyntaxError, lambda: s(*spec, ..., bad), "end outside the sequence accepted", spec=spec, end=bad)


@D.case(400)
def power(r):
    a0, p = r.choice([(2, 2), (3, 2), (5, 2), (-2, 2), (-3, 2), (2, 3), (-2, 3), (-5, 3), (7, 2), (1.5, 2), (16, .5), (256, .25), (F(1, 2), 2)])
    terms = [a0]
    for _ in range(4 if p == 2 else 3):
        terms.append(terms[-1] ** p)
    m = 3
    if close(terms[1] - terms[0], terms[2] - terms[1]) or close(terms[1] * terms[1], terms[0] * terms[2]): return 0
    same_terms(tk(len(terms), s(*terms[:m], ...)), terms, "power", False, spec=terms[:m])
    n = r.randint(1, len(terms) - 1)
    same_terms(list(s(*terms[:m], ..., terms[n])), terms[:n + 1], "finite power", False, spec=terms[:m], end=terms[n])
    raises(SyntaxError, lambda: s(*terms[:m], ..., -terms[n]), "end outside the sequence accepted", spec=terms[:m])
    raises(SyntaxError, lambda: s(terms[0], -terms[1], terms[2], ...), "sequence with a wrong sign accepted", terms=terms)


@D.case(30)
def far_out(r):
    a, d = r.randint(-10**6, 10**6), r.choice([1, -1, 3, 7, -250])
    n = r.choice([300, 1100, 4200])
    same_terms(tk(n, s(a, a + d, ...)), [a + j * d for j in range(n)], "arithmetic, far out", a=a, d=d)
    end = r.randint(100, 5000)
    same_terms(list(s(a, a + d, ..., a + end * d)), [a + j * d for j in range(end + 1)], "arithmetic with an end far out", a=a, d=d, end=end)
    q = r.choice([2, 3, -2, 10])
    same_terms(tk(200, s(1, q, q * q, ...)), [q ** j for j in range(200)], "geometric, far out", q=q)
    rep = [Item(("r", i)) for i in range(r.randint(1, 40))]; ini = items(r.randint(0, 30))
    same_items(tk(n, s(*ini, rep, ...)), (ini + rep * n)[:n], "cyclic, far out")
    x = [r.randint(-99, 99) for _ in range(n)]; y = [r.randint(1, 99) for _ in range(n + r.randint(-2, 2))]
    same_terms(list(sadd(x, y)), [p + q for p, q in zip(x, y)], "termwise, long"); same_terms(list(imathify(x) * imathify(y)), [p * q for p, q in zip(x, y)], "termwise, long")


@D.case(300)
def cyclic(r):
    ini = items(r.randint(0, 4)); rep = [Item(("r", i)) for i in range(r.randint(1, 4))]
    same_items(tk(17, s(*ini, rep, ...)), (ini + rep * 17)[:17], "cyclic")
    raises(SyntaxError, lambda: s(*ini, rep)); raises(SyntaxError, lambda: s(*ini, [], ...)); raises(SyntaxError, lambda: s(...))
    for a in ((1, 2, 4, 7, ...), (0, 1, 5, ...), (2, 1, 5, ...), (1, 2, 3, 4, 6, ...), (1, 2, 4, 8, 15, ...), (0, 0, 1, ...), (1, 0, 0, ...), (1, 1, 2, ...), (..., 1), (1, ..., 2, 3)): raises(SyntaxError, lambda: s(*a), "specification accepted", spec=a)


BIN = [(sadd, operator.add, "+"), (ssub, operator.sub, "-"), (smul, operator.mul, "*"), (struediv, operator.truediv, "/"), (sfloordiv, operator.floordiv, "//"), (smod, operator.mod, "%"), (sdivmod, divmod, "dm"), (spow, operator.pow, "**"),
       (slshift, operator.lshift, "<<"), (srshift, operator.rshift, ">>"), (sand, operator.and_, "&"), (sor, operator.or_, "|"), (sxor, operator.xor, "^"), (slt, operator.lt, "<"), (sle, operator.le, "<="), (sgt, operator.gt, ">"), (sge, operator.ge, ">="), (seq, operator.eq, "=="), (sne, operator.ne, "!=")]
UN = [(sabs, abs), (spos, operator.pos), (sneg, operator.neg), (sinvert, operator.invert), (sround, round), (strunc, math.trunc), (sfloor, math.floor), (sceil, math.ceil)]


class Tm:
    """Opaque operand: every operator builds a term, so operand order and operator are visible."""
    def __init__(self, *a): self.a = a
    def __repr__(self): return f"Tm{self.a}"
for _nm in "add sub mul truediv floordiv mod divmod pow lshift rshift and or xor".split():
    setattr(Tm, f"__{_nm}__", lambda self, o, _n=_nm: Tm(_n, self, o)); setattr(Tm, f"__r{_nm}__", lambda self, o, _n=_nm: Tm(_n, o, self))
for _nm in "lt le gt ge eq ne".split(): setattr(Tm, f"__{_nm}__", lambda self, o, _n=_nm: Tm(_n, self, o))
Tm.__hash__ = object.__hash__
for _nm in "abs pos neg invert round trunc floor ceil".split(): setattr(Tm, f"__{_nm}__", lambda self, *a, _n=_nm: Tm(_n, self, *a))


def tmeq(a, b):
    if isinstance(a, Tm) and isinstance(b, Tm): return a is b or (len(a.a) == len(b.a) and all(tmeq(x, y) for x, y in zip(a.a, b.a)) and len(a.a) > 0)
    return a is b or (not isinstance(a, Tm) and not isinstance(b, Tm) and a == b)


@D.case(600)
def termwise(r):
    f, op, sy = r.choice(BIN)
    n, m = r.randint(0, 6), r.randint(0, 6)
    A = [Tm() for _ in range(n)]; B = [Tm() for _ in range(m)]; c = Tm()
    def verify(got, want, what):
        got = list(got)
        check(len(got) == len(want) and all(tmeq(x, y) for x, y in zip(got, want)), "termwise operation", what=what, op=sy, got=got, want=want)
    both = [op(x, y) for x, y in zip(A, B)]
    verify(f(mk(r, A), mk(r, B)), both, "function, two sequences"); verify(f(mk(r, A), c), [op(x, c) for x in A], "sequence, constant"); verify(f(c, mk(r, B)), [op(c, y) for y in B], "constant, sequence")
    check(tmeq(f(c, c), op(c, c)))
    pyop = {"dm": divmod}.get(sy, op)
    a = lambda: imathify(mk(r, A)); b = lambda: imathify(mk(r, B))
    verify(pyop(a(), b()), both, "infix"); verify(pyop(a(), c), [op(x, c) for x in A], "infix constant")
    if sy not in ("<", "<=", ">", ">=", "==", "!="):
        verify(pyop(7, b()), [op(7, y) for y in B], "infix reversed"); verify(pyop(list(A) if False else Plain(c), b()), [Tm("x")] * 0 if False else [op_plain(op, y) for y in B], "reversed plain")
    # infinite operands, lazily
    k = r.randint(0, 5); got = tk(k, pyop(imathify(count(1)), imathify(count(2)))) if sy not in ("<<", "**") else []
    if got: eq(got, [op(x, y) for x, y in islice(zip(count(1), count(2)), k)])
    u, uop = r.choice(UN)
    verify(u(mk(r, A)), [uop(x) for x in A], "unary"); 
    verify({sabs: abs, spos: operator.pos, sneg: operator.neg, sinvert: operator.invert, sround: round, strunc: math.trunc, sfloor: math.floor, sceil: math.ceil}[u](a()), [uop(x) for x in A], "unary infix")
    eq(list(spow([2, 3, 4], 5, 7)), [pow(x, 5, 7) for x in (2, 3, 4)]); eq(list(pow(imathify([2, 3]), 5, 7)), [pow(2, 5, 7), pow(3, 5, 7)]); eq(list(sround([1.234, 5.678], 1)), [1.2, 5.7]); eq(list(round(imathify([1.234]), 2)), [1.23])
    eq(list(gmathify(lambda q: (x for x in range(q)))(4) + 1), [1, 2, 3, 4])


PLAIN = object()
class Plain:
    """No operators of its own: only the reversed operator of the sequence's terms applies."""
    def __init__(self, c): self.c = c
    def __eq__(self, o): return isinstance(o, Plain)
    __hash__ = None


def op_plain(op, y):
    return op(Plain(None), y)


@D.case(500)
def products(r):
    n, m = r.randint(0, 6), r.randint(0, 6)
    A = [r.randint(-5, 5) for _ in range(n)]; B = [r.randint(-5, 5) for _ in range(m)]
    full = [sum(A[i] * B[k - i] for i in range(k + 1) if i < n and k - i < m) for k in range(n + m - 1)] if n and m else []
    same_terms(list(cauchyprod(mk(r, A), mk(r, B))), full, "Cauchy product", A=A, B=B)
    same_terms(list(cauchyprod(mk(r, A), mk(r, B), require="all")), full[:min(n, m)], "Cauchy product, require all", A=A, B=B)
    X, Y = items(n), [Item(("y", i)) for i in range(m)]
    got = list(diagonal_reduce(mk(r, X), mk(r, Y), combine=lambda a, b: list(zip(a, b)), reduce=lambda z: z))
    eq(got, [[(X[i], Y[k - i]) for i in range(k + 1) if i < n and k - i < m] for k in range(n + m - 1)] if n and m else [], "diagonals")
    eq(tk(8, cauchyprod(s(1, ...), s(1, ...))), list(range(1, 9))); eq(tk(6, cauchyprod(s(1, 2, ...), s(1, 3, ...))), [sum((i + 1) * (2 * (k - i) + 1) for i in range(k + 1)) for k in range(6)])
    raises(TypeError, lambda: cauchyprod(1, [1])); raises(ValueError, lambda: cauchyprod([1], [1], require="x"))


@D.case()
def named(r):
    N = 400
    sieve = [p for p in range(2, 3000) if all(p % q for q in range(2, int(p ** .5) + 1))]
    for opt in ("speed", "memory"):
        eq(tk(N, primes(optimize=opt)), sieve[:N], "primes", opt=opt); eq(tk(N, primes(optimize=opt)), sieve[:N], "primes again")
        a, b = iter(primes(optimize=opt)), iter(primes(optimize=opt)); x = tk(5, a); y = tk(9, b); eq(x + tk(50, a), sieve[:55]); eq(y + tk(50, b), sieve[:59], "interleaved")
    raises(ValueError, lambda: primes(optimize="x"))
    fib = [1, 1]
    while len(fib) < 300: fib.append(fib[-1] + fib[-2])
    eq(tk(300, fibonacci()), fib, "fibonacci"); eq(tk(300, triangular()), [k * (k + 1) // 2 for k in range(1, 301)], "triangular")
    eq(tk(3, fibonacci()), [1, 1, 2])
    return 4


if __name__ == "__main__":
    D.main()

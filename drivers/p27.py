from base import *
import math, itertools
from fractions import Fraction as F
from unpythonic.numutil import partition_int, partition_int_triangular, partition_int_custom, almosteq, fixpoint, ulp
D = Driver("P27")


def comps(n, parts, memo=None):
    """All tuples of parts summing to n (independent specification)."""
    if memo is None: memo = {}
    if n == 0: return [()]
    if n in memo: return memo[n]
    memo[n] = [(k,) + rest for k in parts if k <= n for rest in comps(n - k, parts, memo)]
    return memo[n]


def verify(got, want, **ctx):
    got = list(got)
    eq(len(set(got)), len(got), "a partition occurs twice", **ctx)
    eq(set(got), set(want), "set of partitions", **ctx)
    check(all(type(t) is tuple for t in got))


@D.case()
def bounded(r):
    n = 0
    for N in range(1, 11):
        for lo in range(1, N + 1):
            for hi in range(lo, N + 1):
                verify(partition_int(N, lo, hi), comps(N, range(lo, hi + 1)), N=N, lo=lo, hi=hi)
                tr = [t for t in (1, 3, 6, 10) if lo <= t <= hi]
                verify(partition_int_triangular(N, lo, hi), comps(N, tr), N=N, lo=lo, hi=hi, what="triangular"); n += 2
        verify(partition_int(N), comps(N, range(1, N + 1)), N=N); verify(partition_int_triangular(N), comps(N, [1, 3, 6, 10]), N=N); verify(partition_int(N, lower=2) if N > 1 else [(1,)], comps(N, range(2, N + 1)) if N > 1 else [(1,)]); n += 3
        for bad in (lambda: partition_int(N, 0), lambda: partition_int(N, 1, N + 1), lambda: partition_int(N, N + 1), lambda: partition_int(N, 2, 1), lambda: partition_int(0), lambda: partition_int(-1), lambda: partition_int_triangular(0), lambda: partition_int_custom(0, [1]), lambda: partition_int_custom(N, [N + 1]), lambda: partition_int_custom(N, [0])):
            raises(ValueError, bad)
        for bad in (lambda: partition_int(float(N)), lambda: partition_int(N, 1.0), lambda: partition_int(N, 1, 2.0), lambda: partition_int_custom(N, [1.0]), lambda: partition_int_custom(1.5, [1])): raises(TypeError, bad)
    for N in range(11, 22): verify(partition_int_triangular(N, lower=3), comps(N, [3, 6, 10, 15, 21]), N=N); n += 1
    return n


@D.case(400)
def custom(r):
    N = r.randint(1, 16)
    parts = r.sample(range(1, N + 1), r.randint(0, min(N, 5)))
    want = comps(N, parts)
    if len(want) > 4000: return 0
    verify(partition_int_custom(N, mk(r, parts)), want, N=N, parts=parts)


@D.case(3000)
def ulps(r):
    e = r.randint(-1020, 1020)
    x = r.choice([math.ldexp(1.0, e), math.ldexp(r.uniform(1, 2), e), math.nextafter(math.ldexp(1.0, e), 0), math.nextafter(math.ldexp(1.0, e), math.inf), float(r.randint(1, 10 ** 6))])
    if r.random() < .3: x = -x
    eq(ulp(x), math.ulp(x), "ulp", x=x)


@D.case(4000)
def almost(r):
    tol = r.choice([1e-8, 1e-3, 1e-12, .1])
    a = r.choice([0.0, 1.0, r.uniform(-10, 10), r.uniform(-1, 1) * 10.0 ** r.randint(-300, 300), r.randint(-1000, 1000), sys.float_info.max, -sys.float_info.max, sys.float_info.min, 5e-324, math.inf])
    b = r.choice([a, a * (1 + r.choice([.1, 1.9, 2.1, .5, 10, 3]) * tol * r.choice([1, -1])), a + r.uniform(-1, 1) * tol, r.uniform(-10, 10), 0.0, -a])
    if math.isinf(a) or math.isinf(b):
        eq(bool(almosteq(a, b, tol)), a == b, "almosteq inf", a=a, b=b) if not (math.isinf(a) and math.isinf(b)) or a == b else None
        return 1
    # definition: equal; or |a-b| < tol*min_normal near zero; or relative difference to |a|+|b| below tol  (computed exactly)
    A, B, T = F(a), F(b), F(tol); d = abs(A - B); mn = F(sys.float_info.min)
    if a == b: want = True
    elif a == 0 or b == 0 or d < mn: want = d < T * mn; margin = d / (T * mn)
    else: q = d / min(abs(A) + abs(B), F(sys.float_info.max)) / T; want = q < 1; margin = q
    if a != b and abs(margin - 1) < F(1, 10 ** 9) : return 0    # rounding decides
    if a != b and abs(A) + abs(B) > F(sys.float_info.max): return 0
    eq(bool(almosteq(a, b, tol)), want, "almosteq", a=a, b=b, tol=tol); eq(bool(almosteq(b, a, tol)), want, "symmetric")
    if tol == 1e-8: eq(bool(almosteq(a, b)), want)
    x, y = Item(0), Item(1); check(almosteq(x, x) and not almosteq(x, y)); check(almosteq(F(1, 3), F(1, 3)) and not almosteq(F(1, 3), F(1, 3) + F(1, 10 ** 12)))


@D.case(500)
def mpfs(r):
    from mpmath import mpf
    a = r.uniform(-10, 10); tol = 1e-8; b = a * (1 + r.choice([0, .1, 10]) * tol)
    want = almosteq(a, b, tol)
    eq(bool(almosteq(mpf(a), b, tol)), bool(want)); eq(bool(almosteq(a, mpf(b), tol)), bool(want))


@D.case(600)
def fixpoints(r):
    c = r.uniform(.05, .8); t = r.uniform(-10, 10)
    f = lambda x: t + c * (x - t)
    tol = 10.0 ** -r.randint(3, 10)
    x = fixpoint(f, r.uniform(-100, 100), tol)
    check(abs(f(x) - x) <= tol, "not a fixed point within the tolerance", x=x, fx=f(x), tol=tol)
    k = r.randint(-50, 50)
    g = lambda n: n if n == k else n + (1 if n < k else -1)
    calls = [0]
    def gc(n): calls[0] += 1; return g(n)
    eq(fixpoint(gc, r.randint(-80, 80)), k, "integer fixed point"); same(fixpoint(g, k), k)
    # the value returned is an iterate of f, and earlier iterates were not within the tolerance
    h = lambda n: n // 2; x0 = r.randint(0, 10 ** 6); eq(fixpoint(h, x0), 0)
    it = x0; seq_ = [x0]
    while it: it = h(it); seq_.append(it)
    tol = r.randint(0, 50); y = fixpoint(h, x0, tol)
    seq_.append(0)
    i = next(i for i in range(len(seq_) - 1) if abs(seq_[i + 1] - seq_[i]) <= tol)
    check(y in (seq_[i], seq_[i + 1]), "wrong iterate", y=y, x0=x0, tol=tol)
    check(abs(h(y) - y) <= tol)


if __name__ == "__main__":
    D.main()

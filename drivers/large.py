"""Large instances: every property once more on inputs far beyond those the other cases use (lengths, depths, counts)."""
from base import *
import itertools, operator, collections
L = {}


def case(pid, n=2):
    def deco(f): L.setdefault(pid, []).append((f.__name__, f, n, n * 5)); return f
    return deco


def install(D):
    D.cases += L.get(D.pid, [])


size = lambda r: r.choice([1100, 2600, 5200])


@case("P01")
def large_stream(r):
    from unpythonic.net.msg import encodemsg, MessageDecoder
    from unpythonic.net.util import bytessource
    msgs = [bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7, 40]))) for _ in range(400)] + [b"x" * 70000, b"\xff" * 66000]
    r.shuffle(msgs)
    d = MessageDecoder(bytessource(b"".join(map(encodemsg, msgs)), chunksize=r.choice([61, 4096, 10 ** 7])))
    for i, m in enumerate(msgs): check(d.decode() == m, "message changed on the way", index=i)
    check(d.decode() is None, "more messages than sent")


@case("P02")
def large_junk(r):
    from unpythonic.net.msg import encodemsg, MessageDecoder
    from unpythonic.net.util import bytessource
    n = r.choice([9000, 70000])
    junk = bytes(r.choice(b"abc01;{}") for _ in range(n))
    d = MessageDecoder(bytessource(junk + encodemsg(b"hello") + junk + encodemsg(b"again"), chunksize=r.choice([4096, 10 ** 6])))
    check(d.decode() == b"hello" and d.decode() == b"again" and d.decode() is None, "lost after much junk", n=n)


@case("P03")
def large_update(r):
    from unpythonic import fupdate, ShadowedSequence
    n = size(r); base = tuple(range(n)); want = list(base); out = base
    for _ in range(12):
        a, b, st = r.randrange(n), r.randrange(n), r.choice([1, 2, 7, -1, -3])
        s = slice(a, b, st); k = len(range(*s.indices(n)))
        if st == 1 and b < a: continue
        v = tuple(("v", r.randrange(99), j) for j in range(k)); want[s] = v; out = fupdate(out, s, v)
        i = r.randrange(-n, n); want[i] = "one"; out = fupdate(out, i, "one")
    check(type(out) is tuple and list(out) == want, "large update differs from slice assignment"); check(base == tuple(range(n)), "original changed")
    ix = [r.randrange(n) for _ in range(60)]; ix[30:35] = ix[:5]; vs = [("m", j) for j in range(60)]; w = list(base)
    for i, x in zip(ix, vs): w[i] = x
    check(list(fupdate(base, ix, vs)) == w, "many indices at once, the last given wins")
    x = ShadowedSequence(base, slice(0, n, 2), tuple(-j for j in range(len(base[0::2]))))
    w = list(base); w[0::2] = [-j for j in range(len(base[0::2]))]
    check(list(x) == w and x[n - 1] == w[n - 1] and list(x[3:n - 3]) == w[3:n - 3], "large shadowed sequence")


@case("P04")
def large_views(r):
    from unpythonic import view, roview
    n = size(r); l = list(range(n)); v = view(l)[:]; depth = r.choice([20, 90])
    for _ in range(depth): v = v[0:]
    for _ in range(30):
        i = r.randrange(n); x = r.randrange(10 ** 6)
        if r.random() < .5: v[i] = x
        else: l[i] = x
        check(v[i] == l[i] == x and v[i - n] == x, "deep view out of step", i=i, depth=depth)
    check(list(v) == l and len(v) == n and list(reversed(v)) == l[::-1], "deep view")
    l.extend(range(7)); check(len(v) == n + 7 and list(v[-7:]) == l[-7:], "deep view after growth")
    w = view(l)[5:n:3]; w[:] = [0] * len(w); check(all(x == 0 for x in l[5:n:3]), "large slice assignment through a view")


@case("P05")
def large_select(r):
    from unpythonic import take, drop, split_at, unpack, tail, butlast, butlastn, first, nth, last, lastn, islice
    n = size(r); xs = [Item(i) for i in range(n)]; k = r.randrange(1000, n)
    same_items(list(take(k, iter(xs))), xs[:k], "take"); same_items(list(drop(k, iter(xs))), xs[k:], "drop")
    a, b = split_at(k, iter(xs)); same_items(list(a), xs[:k], "split_at"); same_items(list(b), xs[k:], "split_at")
    *h, t = unpack(k, iter(xs)); same_items(h, xs[:k], "unpack"); same_items(list(t), xs[k:], "unpack tail")
    same_items(list(tail(iter(xs))), xs[1:], "tail"); same_items(list(butlast(iter(xs))), xs[:-1], "butlast"); same_items(list(butlastn(k, iter(xs))), xs[:-k], "butlastn")
    check(nth(k, iter(xs)) is xs[k] if k < n else True, "nth"); check(last(iter(xs)) is xs[-1], "last"); same_items(list(lastn(k, iter(xs))), xs[-k:], "lastn")
    same_items(list(islice(iter(xs))[k - 900:k:7]), xs[k - 900:k:7], "islice")


@case("P06")
def large_transform(r):
    from unpythonic import window, chunked, interleave, pad, scons, uniqify, uniq, flatten, partition, mapr, inn, rev
    n = size(r); xs = [r.randrange(40) for _ in range(n)]; k = r.choice([2, 70, 300])
    check(list(window(k, iter(xs))) == [tuple(xs[i:i + k]) for i in range(n - k + 1)], "window", k=k)
    check([list(c) for c in chunked(k, xs)] == [xs[i:i + k] for i in range(0, n, k)], "chunked", k=k)
    ys = [list(range(i, i + 300)) for i in range(120)]
    check(list(interleave(*ys)) == [x for t in zip(*ys) for x in t], "interleave"); check(len(list(pad(n + 500, None, xs))) == n + 500, "pad")
    ident = [("u", i) for i in range(n)]; dup = ident + ident[::3]
    check(list(uniqify(dup)) == ident, "uniqify"); check(list(uniq(xs)) == [x for x, _ in itertools.groupby(xs)], "uniq")
    t = tuple(xs)
    for _ in range(60): t = (t, "x")
    check(list(flatten(t)) == xs + ["x"] * 60, "flatten")
    a, b = partition(lambda x: x % 2, xs); check(list(a) == [x for x in xs if not x % 2] and list(b) == [x for x in xs if x % 2], "partition")
    check(list(rev(iter(xs))) == xs[::-1], "rev"); check(list(mapr(lambda x: x + 1, xs)) == [x + 1 for x in xs[::-1]], "mapr"); check(inn(n * 3, itertools.count(0, 3)), "inn") ; check(not inn(n * 3 + 1, itertools.count(0, 3)), "inn")
    check(list(scons(1, scons(2, iter(xs)))) == [1, 2] + xs, "scons")


@case("P08")
def large_fold(r):
    from unpythonic import scanl, scanr, foldl, foldr, reducel, reducer, unfold1, unfold, iterate1, prod, minmax, running_minmax
    n = size(r); xs = [r.randrange(-99, 99) for _ in range(n)]
    f = lambda x, acc: 3 * acc % 1000003 + x
    acc = 5; sc = [acc]
    for x in xs: acc = f(x, acc); sc.append(acc)
    check(foldl(f, 5, xs) == acc and list(scanl(f, 5, iter(xs))) == sc, "fold from the left")
    acc = 5; sr = [acc]
    for x in xs[::-1]: acc = f(x, acc); sr.append(acc)
    check(foldr(f, 5, xs) == acc and list(scanr(f, 5, xs)) == sr, "fold from the right")
    check(reducel(f, xs) == foldl(f, xs[0], xs[1:]) and reducer(f, xs) == foldr(f, xs[-1], xs[:-1]), "reductions")
    check(list(unfold1(lambda k: (k, k + 1) if k < n else None, 0)) == list(range(n)), "unfold1"); check(minmax(xs) == (min(xs), max(xs)), "minmax")
    check(foldl(lambda a, b, acc: acc + a * b, 0, xs, xs) == sum(x * x for x in xs), "two inputs"); check(prod([2] * n) == 2 ** n, "prod")


@case("P09")
def large_memo_gen(r):
    from unpythonic import gmemoize, imemoize
    n = r.choice([1100, 12000]); made = []
    @gmemoize
    def g(a):
        made.append(a)
        for i in range(n): yield (a, i)
    a, b = g(1), g(1)
    for i in range(n):
        check(next(a) == (1, i), "first reader", i=i)
        if i % 3 == 0 and i: check(next(b) == (1, i // 3 - 1), "second reader", i=i)
    check(list(g(1)) == [(1, i) for i in range(n)] and made == [1], "late reader"); check(a[0] == (1, 0) and a[n - 1] == (1, n - 1) and a[700:900] == [(1, i) for i in range(700, 900)], "by index")
    for k in range(400): check(next(g(k)) == (k, 0), "many arguments", k=k)
    for k in range(400): check(next(g(k)) == (k, 0), "many arguments again", k=k)
    check(sorted(made) == sorted(range(400)), "computed more than once", made=len(made))
    z = imemoize(iter(range(n))); check(list(z()) == list(z()) == list(range(n)), "imemoize")


@case("P10")
def large_memo(r):
    from unpythonic import memoize
    n = r.choice([1500, 10500]); calls = []
    @memoize
    def f(x, y=0): calls.append(x); return [x]
    first = [f(i) for i in range(n)]; again = [f(x=i, y=0) for i in range(n)]
    check(all(a is b for a, b in zip(first, again)) and calls == list(range(n)), "evaluated more than once", n=n, calls=len(calls))
    @memoize
    def bad(x): calls.append(x); raise ValueError(x)
    del calls[:]
    for _ in range(2):
        for i in range(1200): raises(ValueError, lambda: bad(i), "raises again")
    check(calls == list(range(1200)), "failure evaluated more than once")


@case("P11")
def large_env(r):
    from unpythonic.env import env
    n = size(r); e = env(**{f"k{i}": i for i in range(n)})
    for i in range(n): check(getattr(e, f"k{i}") == i == e[f"k{i}"], "large environment", i=i)
    check(len(e) == n and list(e) == [f"k{i}" for i in range(n)], "names"); e.finalize()
    raises(AttributeError, lambda: setattr(e, "new", 1), "finalized"); setattr(e, f"k{n - 1}", -1); check(e[f"k{n - 1}"] == -1, "rebind")


@case("P12")
def large_begin(r):
    from unpythonic import begin, begin0, lazy_begin, lazy_begin0, do, assign, let, letrec
    n = 1200; out = []
    check(begin(*range(n)) == n - 1 and begin0(*range(n)) == 0, "begin")
    check(lazy_begin(*[lambda i=i: out.append(i) or i for i in range(n)]) == n - 1 and out == list(range(n)), "lazy_begin")
    del out[:]; check(lazy_begin0(*[lambda i=i: out.append(i) or i for i in range(n)]) == 0 and out == list(range(n)), "lazy_begin0")
    check(do(assign(x=0), *[assign(x=lambda e: e.x + 1) for _ in range(300)], lambda e: e.x) == 300, "do")
    check(let(body=lambda e: sum(e[k] for k in e), **{f"v{i}": i for i in range(300)}) == sum(range(300)), "let")
    check(letrec(body=lambda e: e.v299, **{"v0": 1, **{f"v{i}": (lambda i: lambda e: e[f"v{i - 1}"] + 1)(i) for i in range(1, 300)}}) == 300, "letrec")


@case("P13")
def large_dyn(r):
    from unpythonic import dyn
    depth = r.choice([150, 300])
    def go(d):
        if d == depth:
            check(dyn.lg_bottom == "deep" and all(dyn[f"lg{i}"] == i for i in range(depth)), "a deep binding is lost", depth=depth)
            dyn.lg_bottom = "changed"; dyn.lg3 = "three"; return
        with dyn.let(**{f"lg{d}": d, "lg_all": d}):
            check(dyn.lg_all == d, "innermost"); go(d + 1); check(dyn.lg_all == d, "innermost after"); check(dyn.lg3 == "three" if d >= 3 else True, "update in place")
    with dyn.let(lg_bottom="deep"): go(0); check(dyn.lg_bottom == "changed", "update from the depth"); check("lg_all" not in dyn and "lg3" not in dyn, "left behind")
    check("lg_bottom" not in dyn, "left behind")
    with dyn.let(**{f"lw{i}": i for i in range(600)}): check(all(dyn[f"lw{i}"] == i for i in range(600)), "many at once")
    check(not any(f"lw{i}" in dyn for i in range(600)), "left behind")


@case("P14")
def large_conditions(r):
    from unpythonic.conditions import signal, handlers, restarts, invoke, with_restarts, available_restarts, find_restart
    from unpythonic import unbox
    depth = 60; seen = []
    class C(Exception): pass
    class Sub(C): pass
    def hs(d):
        if d == 0: signal(Sub("x")); return
        with handlers((C if d % 2 else (KeyError, C), lambda c, d=d: seen.append(d))): hs(d - 1)
    hs(depth); check(seen == list(range(1, depth + 1)), "handlers, innermost first", seen=seen)
    del seen[:]
    with handlers(*[(C, lambda c, i=i: seen.append(i)) for i in range(300)]): signal(C("y"))
    check(seen == list(range(300)), "many handlers in one place")
    order = []
    def rs(d, target):
        if d == 0: signal(C(target)); return "not reached"
        with restarts(**{f"r{d}": lambda v, d=d: ("restart", d, v)}) as res: res << rs(d - 1, target); order.append(d)
        return unbox(res)
    t = r.randint(1, depth)
    with handlers((C, lambda c: invoke(f"r{c.args[0]}", 42))): got = rs(depth, t)
    check(got == ("restart", t, 42) and order == list(range(t + 1, depth + 1)), "resumes at the restart invoked", t=t, got=got)
    check(not available_restarts(), "left behind")


@case("P15")
def large_escape(r):
    from unpythonic import call_ec, catch, throw
    depth = 120; t = r.randrange(depth); ran = []
    def go(ecs):
        if len(ecs) == depth: ecs[t]("out"); return "no"
        @call_ec
        def x(ec):
            v = go(ecs + [ec]); ran.append(len(ecs)); return (len(ecs), v)
        return x
    v = go([])
    want = "out"
    for k in range(t - 1, -1, -1): want = (k, want)
    check(v == want and ran == list(range(t - 1, -1, -1)), "escape through many extents", t=t)
    many = tuple(f"tag{i}" for i in range(200)); j = r.randrange(200)
    @catch(many, catch_untagged=False)
    def f():
        throw(j, tag=many[j])
    check(f() == j, "one of many tags", j=j)


@case("P16")
def large_loop(r):
    from unpythonic import trampolined, jump, looped, looped_over, breakably_looped_over
    n = 60000
    @trampolined
    def even(k): return True if k == 0 else jump(odd, k - 1)
    @trampolined
    def odd(k): return False if k == 0 else jump(even, k - 1)
    check(even(n) is True and odd(n) is False and even(n + 1) is False, "mutual recursion")
    @looped
    def s(loop, acc=0, i=0): return acc if i == n else loop(acc + i, i + 1)
    check(s == n * (n - 1) // 2, "loop")
    @looped_over(range(n), acc=0)
    def s2(loop, i, acc): return loop(acc + i)
    check(s2 == n * (n - 1) // 2, "loop over")
    @looped_over(range(n), acc=[])
    def s3(loop, i, acc): return loop(acc) if acc.append(i) is None and i < n - 5 else acc
    check(s3 == list(range(n - 4)), "loop over, stopped")


@case("P17")
def large_lists(r):
    from unpythonic.llist import llist, lreverse, lappend, lzip, member, nil, cons, LinkedListIterator
    n = size(r); xs = [r.randrange(10 ** 6) for _ in range(n)]; l = llist(xs)
    check(list(l) == xs and tuple(l) == tuple(xs) and list(reversed(l)) == xs[::-1] and list(lreverse(l)) == xs[::-1], "long list"); check(llist(iter(xs)) == l and hash(llist(tuple(xs))) == hash(l), "equality")
    check(list(lappend(l, llist(range(700)), l)) == xs + list(range(700)) + xs, "append"); check([tuple(p) for p in lzip(l, llist(range(n)))] == list(zip(xs, range(n))), "zip")
    ys = xs[:-1] + [xs[-1] + 1]; check(llist(ys) != l and llist(xs[:-1]) != l and llist(xs + [0]) != l, "differs at the end"); check(member("no", l) is False, "member")
    m = member(xs[-1], l); check(m is not False and m.car == xs[-1] and list(m) == xs[xs.index(xs[-1]):], "member at the end")


@case("P18")
def large_frozendict(r):
    from unpythonic import frozendict
    n = size(r); d = {f"k{i}": i for i in range(n)}; f = frozendict(d); items = list(d.items()); r.shuffle(items); g = frozendict(dict(items))
    check(f == g == d and hash(f) == hash(g) and len(f) == n and list(f) == list(d), "large"); h = frozendict(f, {f"k{n - 1}": "new"}); check(h != f and h[f"k{n - 1}"] == "new" and f[f"k{n - 1}"] == n - 1 and len(h) == n, "update")
    check(frozendict({k: v for k, v in d.items() if k != "k7"}) != f, "one missing")
    i = r.randrange(n); e = dict(d); e[f"k{i}"] = object(); check(frozendict(e) != f, "one different")


@case("P19")
def large_boxes(r):
    from unpythonic import box, unbox, ThreadLocalBox
    b = box(None); t = ThreadLocalBox(None); bs = [box(i) for i in range(1500)]
    for i in range(3000): b << i; check(unbox(b) == i, "last set"); t << i; check(unbox(t) == i, "last set")
    for x in bs[::2]: x << "new"
    check(all(unbox(x) == ("new" if i % 2 == 0 else i) for i, x in enumerate(bs)), "many boxes")


@case("P20")
def large_signatures(r):
    from unpythonic.arity import arities, arity_includes, resolve_bindings, tuplify_bindings, required_kwargs, optional_kwargs
    n = 120; ns = {}
    exec(f"def f({', '.join(f'a{i}' for i in range(n))}, {', '.join(f'd{i}={i}' for i in range(n))}, *, {', '.join(f'k{i}' for i in range(n))}, {', '.join(f'o{i}={i}' for i in range(n))}): return locals()", ns)
    f = ns["f"]; check(arities(f) == (n, 2 * n) and arity_includes(f, 2 * n) and not arity_includes(f, 2 * n + 1) and not arity_includes(f, n - 1), "arity")
    check(required_kwargs(f) == {f"k{i}" for i in range(n)} and optional_kwargs(f) == {f"o{i}" for i in range(n)}, "keyword-only")
    args = list(range(n + 50)); kw = {f"k{i}": -i for i in range(n)}; r.shuffle(args)
    b = resolve_bindings(f, *args, **kw); check(dict(b.arguments) == f(*args, **kw) and tuplify_bindings(b) == tuplify_bindings(resolve_bindings(f, *args, **dict(reversed(list(kw.items()))))), "binding")


@case("P21")
def large_curry(r):
    from unpythonic.fun import curry, partial
    n = 60; ns = {}
    exec(f"def f({', '.join(f'a{i}' for i in range(n))}): return ({', '.join(f'a{i}' for i in range(n))})", ns)
    g = curry(ns["f"]); i = 0; args = list(range(n))
    while i < n: k = r.randint(1, 4); g = g(*args[i:i + k]) if i + k <= n else g(*args[i:n]); i += k
    check(g == tuple(args), "in many steps", got=g)
    p = ns["f"]
    for x in args: p = partial(p, x)
    check(p() == tuple(args), "partial in many steps")


@case("P22")
def large_compose(r):
    from unpythonic.fun import composel, composer, composel1i
    from unpythonic.seq import pipe, pipe1, piped1, exitpipe, lazy_piped1
    n = 300; fs = [(lambda k: lambda x: (x * 3 + k) % 1000003)(k) for k in range(n)]; want = 7
    for f in fs: want = f(want)
    check(composel(*fs)(7) == composer(*reversed(fs))(7) == composel1i(iter(fs))(7) == pipe1(7, *fs) == pipe(7, *fs) == want, "many stages")
    p = piped1(7); q = lazy_piped1(7)
    for f in fs: p = p | f; q = q | f
    check(p | exitpipe == q | exitpipe == want, "many pipes")


@case("P23")
def large_dispatch(r):
    from unpythonic.dispatch import generic, augment
    cs = [type(f"C{i}", (), {}) for i in range(150)]
    def mk(i):
        def f(x): return i
        f.__annotations__ = {"x": cs[i]}; f.__module__ = "p23large"; f.__qualname__ = f"f{id(cs)}"; return f
    g = None
    for i in range(150): g = generic(mk(i))
    for i in range(150): check(g(cs[i]()) == i, "the right one of many", i=i)
    raises(TypeError, lambda: g(3), "none")


@case("P24")
def large_types(r):
    import typing
    from unpythonic.typecheck import isoftype
    n = size(r); i = r.randrange(1000, n)
    xs = list(range(n)); ys = xs[:]; ys[i] = "no"
    for T, f in ((typing.List[int], list), (typing.Tuple[int, ...], tuple), (typing.Sequence[int], list), (typing.Set[int], set), (typing.FrozenSet[int], frozenset), (typing.Deque[int], collections.deque)):
        check(isoftype(f(xs), T) is True and isoftype(f(ys), T) is False, "one wrong item among many", T=T, i=i)
    d = {f"k{j}": j for j in xs}; check(isoftype(d, typing.Dict[str, int]) is True, "dict"); d["k%d" % i] = "no"; check(isoftype(d, typing.Dict[str, int]) is False, "one wrong value"); d["k%d" % i] = 1; d[3] = 3; check(isoftype(d, typing.Mapping[str, int]) is False, "one wrong key")
    U = typing.Union[tuple(type(f"U{j}", (), {}) for j in range(40)) + (int,)]; check(isoftype(3, U) is True and isoftype("x", U) is False, "many-membered union")


@case("P25")
def large_symbols(r):
    import pickle
    from unpythonic.symbol import sym, gensym
    n = size(r); a = [sym(f"lg{i}") for i in range(n)]; check(all(sym(f"lg{i}") is a[i] for i in range(n)), "interned"); check(len({id(x) for x in a}) == n, "distinct")
    g = [gensym("g") for _ in range(n)]; check(len(set(g)) == n and len({id(x) for x in g}) == n, "unique"); check(all(pickle.loads(pickle.dumps(x)) is x for x in a[:50] + a[-50:] + g[:50]), "pickling")


@case("P28")
def large_amb(r):
    from unpythonic.amb import forall, choice, insist
    n = 1200
    check(tuple(forall(choice(x=range(n)), lambda e: e.x)) == tuple(range(n)), "many choices")
    names = [f"v{i}" for i in range(12)]
    check(tuple(forall(*[choice(**{k: (i, i + 100) if i % 4 == 0 else (i,)}) for i, k in enumerate(names)], lambda e: insist(e.v8 + e.v4 != 112), lambda e: tuple(getattr(e, k) for k in names))) == tuple(t for t in itertools.product(*[(i, i + 100) if i % 4 == 0 else (i,) for i in range(12)]) if t[8] + t[4] != 112), "many names")
    check(tuple(forall(choice(x=range(40)), choice(y=range(40)), lambda e: insist(e.x <= e.y), lambda e: (e.x, e.y))) == tuple((x, y) for x in range(40) for y in range(40) if x <= y), "two choices")


@case("P31")
def large_gtco(r):
    from unpythonic.gtco import gtco, gtrampolined
    n = 20000
    @gtrampolined
    def march(i):
        yield i
        if i < n: return march(i + 1)
    check(list(march(0)) == list(range(n + 1)), "long chain")
    def chain(i):
        yield i
        if i < n: return chain(i + 1)
    check(list(gtco(chain(0))) == list(range(n + 1)), "long chain")


@case("P32")
def large_mogrify(r):
    from unpythonic.collections import mogrify
    n = size(r); xs = list(range(n)); calls = []
    f = lambda x: calls.append(x) or x + 1
    y = mogrify(f, xs); check(y is xs and xs == list(range(1, n + 1)) and calls == list(range(n)), "long list")
    check(mogrify(lambda x: x + 1, tuple(range(n))) == tuple(range(1, n + 1)), "long tuple"); d = {i: i for i in range(n)}; check(mogrify(lambda x: -x, d) is d and d == {i: -i for i in range(n)}, "large dict")
    s = set(range(n)); check(mogrify(lambda x: -x, s) is s and s == {-i for i in range(n)}, "large set")
    t = 1
    for _ in range(80): t = [t, (t if not isinstance(t, list) else 0,)]
    def leaves(t): return sum(map(leaves, t)) if isinstance(t, (list, tuple)) else 1
    k = leaves(t); del calls[:]; mogrify(lambda x: calls.append(x) or "leaf", t); check(len(calls) == k, "deep")


@case("P33")
def large_pop(r):
    import queue
    from unpythonic.misc import Popper, CountingIterator, slurp
    n = size(r); q = collections.deque(range(n)); out = []
    for x in Popper(q):
        out.append(x)
        if x % 100 == 0 and x < n: q.append(n + x)
    check(out == list(range(n)) + [n + x for x in range(0, n, 100)] and not q, "popping")
    it = CountingIterator(range(n)); check(list(it) == list(range(n)) and it.count == n, "counting"); z = queue.Queue()
    for i in range(n): z.put(i)
    check(slurp(z) == list(range(n)) and z.empty(), "draining")

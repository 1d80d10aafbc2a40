from base import *
import linecache, itertools
from typing import Any, Union, List, Tuple, Dict, Optional
from unpythonic.dispatch import generic, augment, typed, isgeneric, list_methods, format_methods
from unpythonic.typecheck import isoftype
D = Driver("P23")
_n = itertools.count()


def module(src, **extra):
    """Run source in a fresh module namespace, with the source available for inspection."""
    name = f"p23mod{next(_n)}"
    fn = f"<{name}>"
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {"__name__": name, "generic": generic, "augment": augment, "typed": typed, "Any": Any, "Union": Union, "List": List, "Tuple": Tuple, "Dict": Dict, "Optional": Optional, **extra}
    exec(compile(src, fn, "exec"), ns)
    return ns


class A: pass
class B(A): pass
class C(B): pass
# type source -> membership predicate (written independently of isoftype)
TYPES = [("int", lambda v: isinstance(v, int)), ("str", lambda v: isinstance(v, str)), ("float", lambda v: isinstance(v, float)), ("Any", lambda v: True),
         ("Union[int, str]", lambda v: isinstance(v, (int, str))), ("List[int]", lambda v: isinstance(v, list) and len(v) > 0 and all(isinstance(x, int) for x in v)),
         ("Tuple[int, str]", lambda v: isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], str)),
         ("Optional[str]", lambda v: v is None or isinstance(v, str)), ("A", lambda v: isinstance(v, A)), ("B", lambda v: isinstance(v, B)), ("C", lambda v: isinstance(v, C)), ("bool", lambda v: isinstance(v, bool))]
VALUES = [0, 1, True, "x", "", 2.5, None, [1, 2], ["a"], (1, "a"), ("a", 1), A(), B(), C(), object()]


def gen_impl(r, idx, names="xyz"):
    """-> (params [(name, typeidx, kind, default?)], source of parameter list)"""
    n = r.randint(0, 3)
    ps = []
    star = r.random() < .25
    for i in range(n):
        kind = "ko" if star and i >= n - 1 else "pk"
        ps.append((names[i] if r.random() < .85 else "w" + names[i], r.randrange(len(TYPES)), kind, False))
    # a trailing default of matching type
    if ps and r.random() < .25:
        nm, t, kind, _ = ps[-1]
        ps[-1] = (nm, 0, kind, True)
    out = []
    for i, (nm, t, kind, d) in enumerate(ps):
        if kind == "ko" and (i == 0 or ps[i - 1][2] != "ko"): out.append("*")
        out.append(f"{nm}: {TYPES[t][0]}" + (" = 7" if d else ""))
    return ps, ", ".join(out)


def accepts(ps, args, kw):
    pos = [p for p in ps if p[2] == "pk"]
    if len(args) > len(pos): return False
    bound = {}
    for p, v in zip(pos, args): bound[p[0]] = v
    names = [p[0] for p in ps]
    for k, v in kw.items():
        if k in bound or k not in names: return False
        bound[k] = v
    for nm, t, kind, d in ps:
        if nm not in bound:
            if not d: return False
        elif not TYPES[t][1](bound[nm]): return False
    return True


def gencall(r, impls):
    if r.random() < .6 and impls:  # aim at some implementation
        ps = r.choice(impls)
        args, kw = [], {}
        named = False
        for nm, t, kind, d in ps:
            cands = [v for v in VALUES if TYPES[t][1](v)]
            v = r.choice(cands) if r.random() < .9 else r.choice(VALUES)
            named = named or kind == "ko" or r.random() < .25
            if d and r.random() < .5: break
            if named: kw[nm] = v
            else: args.append(v)
        return args, kw
    return [r.choice(VALUES) for _ in range(r.randint(0, 3))], {k: r.choice(VALUES) for k in "xyz" if r.random() < .15}


@D.case(700)
def dispatching(r):
    impls, src = [], []
    nimpl = r.randint(1, 6)
    ns = None
    other = module("@generic\ndef f(x: int):\n    return ('other', x)\n@generic\ndef g(x: Any):\n    return 'g'\n")
    log = []
    src = ""
    for i in range(nimpl):
        ps, plist = gen_impl(r, i)
        src += f"@generic\ndef f({plist}):\n    log.append({i})\n    return ({i}, locals())\n"
        impls.append(ps)
    ns = module(src, log=log, A=A, B=B, C=C)
    f = ns["f"]
    eq(isgeneric(f), "generic")
    for step in range(14):
        if step == 7:  # register one more, from elsewhere
            ps, plist = gen_impl(r, nimpl)
            m = module(f"@augment(target)\ndef whatever({plist}):\n    log.append({nimpl})\n    return ({nimpl}, locals())\n" if r.random() < .5 else f"@target._register\ndef whatever({plist}):\n    log.append({nimpl})\n    return ({nimpl}, locals())\n", target=f, log=log, A=A, B=B, C=C)
            impls.append(ps); same(m["whatever"], f, "augmenting gives the generic function")
        args, kw = gencall(r, impls)
        want = next((i for i in reversed(range(len(impls))) if accepts(impls[i], args, kw)), None)
        del log[:]
        got = outcome(lambda: f(*args, **kw))
        desc = dict(impls=[[(p[0], TYPES[p[1]][0], p[2], p[3]) for p in ps] for ps in impls], args=args, kw=kw)
        if want is None:
            check(got[0] == "exc" and issubclass(got[1], TypeError), "no implementation accepts the call, but no TypeError", got=got, **desc); eq(log, [], "something ran", **desc)
        else:
            check(got[0] == "ok", "an implementation accepts the call", want=want, got=got, **desc)
            eq(got[1][0], want, "wrong implementation", **desc); eq(log, [want], "ran once", **desc)
            b = {p[0]: 7 for p in impls[want] if p[3]}; b.update(zip([p[0] for p in impls[want] if p[2] == "pk"], args)); b.update(kw)
            eq({k: id(v) for k, v in got[1][1].items()}, {k: id(v) for k, v in b.items()}, "arguments", **desc)
        eq(other["f"](3), ("other", 3)); raises(TypeError, lambda: other["f"]("q"))
    eq(len(list_methods(f)), len(impls)); check(isinstance(format_methods(f), str))
    return 14


@D.case(400)
def methods_(r):
    """Methods: a subclass's implementations before its bases', in MRO order."""
    shape = r.choice([["A0:", "A1:A0", "A2:A1"], ["A0:", "A1:A0", "A2:A0", "A3:A1,A2"], ["A0:", "A1:", "A2:A0,A1"], ["A0:", "A1:A0"]])
    kind = r.choice(["self", "cls", "static"])
    impls = {}
    src = ""
    n = 0
    for s in shape:
        nm, bases = s.split(":")
        impls[nm] = []
        src += f"class {nm}({bases}):\n    tag = {nm!r}\n    {r.choice(['pass', 'pass', 'def __len__(self): return 0', 'def __bool__(self): return False'])}\n"
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            ps, plist = gen_impl(r, n)
            if kind == "self": src += f"    @generic\n    def m({', '.join(['self'] + ([plist] if plist else []))}):\n        log.append({n})\n        return ({n}, self)\n"
            elif kind == "cls": src += f"    @generic\n    @classmethod\n    def m({', '.join(['cls'] + ([plist] if plist else []))}):\n        log.append({n})\n        return ({n}, cls)\n" if False else f"    @generic\n    def m({', '.join(['self'] + ([plist] if plist else []))}):\n        log.append({n})\n        return ({n}, self)\n"
            else: src += f"    @staticmethod\n    @generic\n    def m({plist}):\n        log.append({n})\n        return ({n}, None)\n"
            impls[nm].append((n, ps)); n += 1
    log = []
    ns = module(src, log=log, A=A, B=B, C=C)
    for s in shape:
        nm = s.split(":")[0]
        K = ns[nm]
        mro = [k.__name__ for k in K.__mro__ if k.__name__ in impls]
        order = [ip for k in mro for ip in reversed(impls[k])]
        if not order: continue
        if kind == "static":   # no self: only the class found by attribute lookup
            order = next([ip for ip in reversed(impls[k])] for k in mro if impls[k])
        obj = K()
        for _ in range(6):
            args, kw = gencall(r, [ps for _, ps in order])
            want = next((i for i, ps in order if accepts(ps, args, kw)), None)
            del log[:]
            got = outcome(lambda: obj.m(*args, **kw))
            desc = dict(shape=shape, cls=nm, src=src, args=args, kw=kw, want=want)
            if want is None: check(got[0] == "exc" and issubclass(got[1], TypeError), "no implementation accepts the call, but no TypeError", got=got, **desc); eq(log, [], **desc)
            else:
                check(got[0] == "ok", "an implementation accepts the call", got=got, **desc); eq(got[1][0], want, "wrong implementation", **desc); eq(log, [want])
                if kind != "static": same(got[1][1], obj)
    return 1


@D.case(250)
def classmethods(r):
    src = ""
    impls = {"A0": [], "A1": []}
    n = 0
    for nm, bases in (("A0", ""), ("A1", "A0")):
        src += f"class {nm}({bases}):\n    pass\n"
        for _ in range(r.randint(1, 3)):
            ps, plist = gen_impl(r, n)
            src += f"    @classmethod\n    @generic\n    def m({', '.join(['cls'] + ([plist] if plist else []))}):\n        return ({n}, cls)\n" if _ == 0 or True else ""
            impls[nm].append((n, ps)); n += 1
    try: ns = module(src, A=A, B=B, C=C)
    except Exception as e: fail("definition failed", src=src, e=e)
    for nm in ("A0", "A1"):
        K = ns[nm]; order = [ip for k in (["A0"] if nm == "A0" else ["A1", "A0"]) for ip in reversed(impls[k])]
        for recv in (K, K()):
            args, kw = gencall(r, [ps for _, ps in order]); want = next((i for i, ps in order if accepts(ps, args, kw)), None)
            got = outcome(lambda: recv.m(*args, **kw))
            if want is None: check(got[0] == "exc" and issubclass(got[1], TypeError), "no TypeError", src=src, args=args, kw=kw, got=got)
            else: eq(got[0], "ok", src=src, args=args, kw=kw); eq(got[1], (want, K), "wrong implementation", src=src, args=args, kw=kw)


@D.case(500)
def typed_(r):
    ps, plist = gen_impl(r, 0)
    log = []
    ns = module(f"@typed\ndef f({plist}):\n    log.append(1)\n    return locals()\n", log=log, A=A, B=B, C=C)
    f = ns["f"]; eq(isgeneric(f), "typed")
    for _ in range(6):
        args, kw = gencall(r, [ps]); del log[:]
        got = outcome(lambda: f(*args, **kw))
        if accepts(ps, args, kw): eq(got[0], "ok", "valid call refused", plist=plist, args=args, kw=kw, got=got); eq(log, [1])
        else: check(got[0] == "exc" and issubclass(got[1], TypeError), "invalid call accepted", plist=plist, args=args, kw=kw); eq(log, [])
    raises(TypeError, lambda: module("@augment(target)\ndef f(x: int):\n    pass\n", target=f)); raises(TypeError, lambda: augment(len) if False else augment(typed_))
    got = outcome(lambda: f(*args, **kw)); eq(got[0] == "ok", accepts(ps, args, kw), "a refused registration changed the function")
    raises(TypeError, lambda: module("@generic\ndef h(x):\n    pass\n"), "missing annotation accepted")


if __name__ == "__main__":
    D.main()
